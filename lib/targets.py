"""Registry of the parsers and how a caller drains each of them."""

import os
import uuid

from vf import REPO

from dtformats import alias_data
from dtformats import asl
from dtformats import bookmark_data
from dtformats import bsm
from dtformats import chrome_cache
from dtformats import cpio
from dtformats import cups_ipp
from dtformats import detection_history
from dtformats import firefox_cache1
from dtformats import fseventsd
from dtformats import gzipfile
from dtformats import indexeddb
from dtformats import job
from dtformats import jump_list
from dtformats import keychain
from dtformats import leveldb
from dtformats import recycle_bin
from dtformats import recycler
from dtformats import rp_change_log
from dtformats import rp_log
from dtformats import safari_cookies
from dtformats import spotlight_storedb
from dtformats import systemd
from dtformats import tzif
from dtformats import unified_logging
from dtformats import usn_journal
from dtformats import utmp
from dtformats import wemf
from dtformats import wmi_repository


def snapshot(value, depth=0):
    """Canonical, comparable form of a public result object."""
    if value is None or isinstance(value, (bool, int, float, str, bytes)):
        return repr(value)
    if isinstance(value, uuid.UUID):
        return f"UUID({value!s})"
    if isinstance(value, dict):
        return {
            "dict": [
                [snapshot(k, depth + 1), snapshot(v, depth + 1)]
                for k, v in value.items()
            ]
        }
    if isinstance(value, (list, tuple)) or type(value).__name__ in (
            "odict_values", "dict_values", "generator"):
        return [snapshot(v, depth + 1) for v in value]
    if isinstance(value, (set, frozenset)):
        return sorted(repr(snapshot(v, depth + 1)) for v in value)
    if depth > 8:
        return type(value).__name__
    attributes = getattr(value, "__dict__", None)
    if attributes is None:
        return type(value).__name__
    return {
        type(value).__name__: [
            [name, snapshot(attribute, depth + 1)]
            for name, attribute in sorted(attributes.items())
            if not name.startswith("_")
        ]
    }


def public(parser):
    """Snapshot of the public attributes of a parser."""
    return snapshot(parser, 0)


class Target:
    """A parser and how it is driven."""

    def __init__(self, name, cls, seeds=(), drain=None, debug_text=True, kwargs=None,
                 args=()):
        self.name = name
        self.cls = cls
        self.seeds = [os.path.join(REPO, "test_data", s) for s in seeds]
        self.drain = drain
        self.args = args
        self.kwargs = kwargs or {}

    def create(self, debug, recorder):
        # Without debug output is the default.
        kwargs = dict(self.kwargs, debug=True) if debug else self.kwargs
        return self.cls(*self.args, output_writer=recorder, **kwargs)

    def run(self, path, debug, recorder, parser=None):
        """Opens, drains and closes; returns the snapshot of the results."""
        if parser is None:
            parser = self.create(debug, recorder)
        parser.Open(path)
        try:
            result = [public(parser)]
            if self.drain:
                result.append(snapshot(self.drain(parser)))
        finally:
            parser.Close()
        return result


def _drain_cpio(parser):
    result = []
    for entry in parser.GetFileEntries():
        # Sizes in the archive can exceed that of the archive.
        data = b"".join(iter(lambda: entry.read(1 << 20), b""))
        result.append([entry.path, entry.size, entry.mode, data])
    return result


def _lnk(entry):
    lnk = entry.lnk_file
    try:
        # Errors of the LNK library on access are not those of this repository.
        return [entry.identifier, lnk.description, lnk.command_line_arguments,
                lnk.file_size]
    except OSError:
        return [entry.identifier, "invalid"]


def _drain_custom(parser):
    return [_lnk(e) for e in parser.GetJumpListEntries()]


def _drain_automatic(parser):
    return [_lnk(e) for e in parser.GetJumpListEntries()]


TARGETS = [
    Target("alias_data", alias_data.MacOSLoginItemAliasData,
           ["com.apple.loginitems.plist.alias_data"]),
    Target("asl", asl.AppleSystemLogFile, ["applesystemlog.asl"]),
    Target("bookmark_data", bookmark_data.MacOSBackgroundItemBookmarkData,
           ["backgrounditems.btm.bookmark_data"]),
    Target("bsm", bsm.BSMEventAuditingFile, ["apple.bsm", "openbsm.bsm"]),
    Target("chrome_cache_data", chrome_cache.DataBlockFile,
           ["chrome_cache/data_0"]),
    Target("chrome_cache_index", chrome_cache.IndexFile, ["chrome_cache/index"]),
    Target("cpio", cpio.CPIOArchiveFile,
           ["cpio/syslog.bin.cpio", "cpio/syslog.crc.cpio",
            "cpio/syslog.newc.cpio", "cpio/syslog.odc.cpio"], _drain_cpio),
    Target("cups_ipp", cups_ipp.CupsIppFile, ["cups_ipp_2.0"]),
    Target("detection_history",
           detection_history.WindowsDefenderScanDetectionHistoryFile),
    Target("firefox_cache1_map", firefox_cache1.CacheMapFile,
           ["firefox_cache1/_CACHE_MAP_"]),
    Target("firefox_cache1_block", firefox_cache1.CacheBlockFile,
           ["firefox_cache1/_CACHE_002_"]),
    Target("fseventsd", fseventsd.FseventsFile,
           ["fsevents-00000000001a0b79", "fsevents-0000000002d89b58"]),
    Target("gzipfile", gzipfile.GZipFile, ["syslog.gz"]),
    Target("indexeddb", indexeddb.IndexedDBDatabaseTableFile, [],
           lambda p: list(p.ReadEntries())),
    Target("job", job.WindowsTaskSchedulerJobFile, ["wintask.job"]),
    Target("automatic_destinations", jump_list.AutomaticDestinationsFile,
           ["9d1f905ce5044aee.automaticDestinations-ms"], _drain_automatic),
    Target("custom_destinations", jump_list.CustomDestinationsFile,
           ["5afe4de1b92fc382.customDestinations-ms"], _drain_custom),
    Target("keychain", keychain.KeychainDatabaseFile, ["login.keychain"],
           lambda p: list(p.tables)),
    Target("leveldb_log", leveldb.LevelDBDatabaseLogFile),
    Target("leveldb_descriptor", leveldb.LevelDBDatabaseDescriptorFile),
    Target("leveldb_table", leveldb.LevelDBDatabaseTableFile, [],
           lambda p: list(p.ReadTableEntries())),
    Target("recycle_bin", recycle_bin.RecycleBinMetadataFile,
           ["$I103S5F.jpg", "$II3DF3L.zip"]),
    Target("recycler", recycler.RecyclerInfo2File, ["INFO2"]),
    Target("rp_change_log", rp_change_log.RestorePointChangeLogFile,
           ["change.log.1"]),
    Target("rp_log", rp_log.RestorePointLogFile, ["rp.log"]),
    Target("safari_cookies", safari_cookies.BinaryCookiesFile,
           ["Cookies.binarycookies"]),
    Target("spotlight_storedb", spotlight_storedb.SpotlightStoreDatabaseFile),
    Target("systemd", systemd.SystemdJournalFile),
    Target("tzif", tzif.TimeZoneInformationFile, ["localtime.tzif"]),
    Target("aul_dsc", unified_logging.DSCFile,
           ["unified_logging/uuidtext/dsc/8E21CAB1DCF936B49F85CF860E6F34EC"]),
    Target("aul_timesync", unified_logging.TimesyncDatabaseFile, [],
           lambda p: list(p.ReadRecords())),
    Target("aul_tracev3", unified_logging.TraceV3File,
           ["unified_logging/0000000000000030.tracev3"],
           lambda p: list(p.ReadLogEntries())),
    Target("aul_uuidtext", unified_logging.UUIDTextFile,
           ["unified_logging/uuidtext/22/0D3C2953A33917B333DD8366AC25F2",
            "unified_logging/uuidtext/00/7EF56328D53A78B59CCCE3E3189F57"]),
    Target("usn_journal", usn_journal.USNRecords, [],
           lambda p: list(p.ReadRecords())),
    Target("utmp", utmp.LinuxLibc6UtmpFile, ["utmp-linux_libc6"]),
    Target("utmpx", utmp.MacOSXUtmpxFile, ["utmpx-macosx10.5"]),
    Target("emf", wemf.EMFFile),
    Target("wmf", wemf.WMFFile, ["grid.wmf"]),
    Target("wmi_index", wmi_repository.IndexBinaryTreeFile, [],
           lambda p: snapshot(p.GetPage(0))),
    Target("wmi_mapping", wmi_repository.MappingFile,
           ["cim/INDEX.MAP", "cim/MAPPING1.MAP"]),
    Target("wmi_objects", wmi_repository.ObjectsDataFile, [],
           lambda p: snapshot(p.GetPage(0, True))),
    Target("wmi_repository_file", wmi_repository.RepositoryFile),
]

BY_NAME = {target.name: target for target in TARGETS}
