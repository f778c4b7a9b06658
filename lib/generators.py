"""Generated files of every format, with the name the format expects."""

import gzip
import os
import struct

from vf import st

import alias_data_file
import amcache_file
import asl_log
import bookmark_data_file
import bsm_file
import chrome_cache_files
import cpio_archive
import cups_ipp_file
import detection_history_file
import firefox_cache1_files
import fsevents_log
import gzip_stream
import indexeddb_files
import job_file
import jump_list_files
import keychain_file
import leveldb_files
import log_support_files
import metafiles
import recycle_metadata
import restore_point
import safari_cookies_file
import spotlight_store
import systemd_journal
import trace_log_entries
import tzif_file
import usn_records
import utmp_log
import wmi_index_files
import wmi_rep_file
import wmi_repository_objects

import targets

from dtformats import amcache
from dtformats import spotlight_storedb
from dtformats import unified_logging
from dtformats import wmi_repository


def build_rp_log(m):
    return (struct.pack("<IIQ", m["event"], m["point"], m["sequence"]) +
            restore_point.text(m["description"]) + m["unknown"] +
            struct.pack("<Q", m["time"]))


def build_utmpx(entries):
    return b"".join(utmp_log.pack_macos(e) for e in [utmp_log.SIGNATURE] + entries)


FILES = {
    "asl": asl_log.models().map(lambda m: asl_log.build(m)[0]),
    "cpio": cpio_archive.models().map(lambda m: cpio_archive.build(m)[0]),
    "fseventsd": fsevents_log.MODELS.map(
        lambda m: gzip.compress(fsevents_log.build(m)[0], 1, mtime=0)),
    "gzipfile": gzip_stream.MODELS.map(
        lambda m: b"".join(b"".join(gzip_stream.pack(item)[:3]) for item in m)),
    "recycle_bin": recycle_metadata.BIN.map(recycle_metadata.build_bin),
    "recycler": recycle_metadata.INFO2.map(lambda m: recycle_metadata.build_info2(m)[0]),
    "rp_change_log": restore_point.LOG.map(lambda m: restore_point.build(m)[0]),
    "rp_log": restore_point.RP.map(build_rp_log),
    "safari_cookies": safari_cookies_file.MODELS.map(
        lambda m: safari_cookies_file.build(m)[0]),
    "tzif": tzif_file.MODELS.map(lambda m: tzif_file.build(m)[0]),
    "utmp": st.lists(utmp_log.LINUX, max_size=5).map(
        lambda v: b"".join(map(utmp_log.pack_linux, v))),
    "utmpx": st.lists(utmp_log.MACOS, max_size=5).map(build_utmpx),
}
for _module in (
        alias_data_file, amcache_file, bookmark_data_file, bsm_file, chrome_cache_files,
        cups_ipp_file, detection_history_file, firefox_cache1_files, indexeddb_files,
        job_file, jump_list_files, keychain_file, leveldb_files, log_support_files,
        metafiles, spotlight_store, systemd_journal, trace_log_entries, usn_records,
        wmi_index_files, wmi_rep_file):
    FILES.update(_module.GENERATORS)

NAMES = {
    "chrome_cache_data": "data_1", "chrome_cache_index": "index",
    "firefox_cache1_map": "_CACHE_MAP_", "leveldb_descriptor": "MANIFEST-000001",
    "leveldb_log": "000003.log", "leveldb_table": "000005.ldb",
    "indexeddb": "000005.ldb", "wmi_rep": "cim.rep", "spotlight": "store.db",
}


def files(target):
    """Returns a strategy of (file name, data)."""
    if target == "firefox_cache1_block":
        return firefox_cache1_files.BLOCKS.map(
            lambda c: (c[0][0], firefox_cache1_files.build_blocks(c)[0]))
    name = NAMES.get(target, "file")
    return FILES[target].map(lambda data: (name, data))


def _drain_spotlight(parser):
    items = [parser.GetMetadataItemByIdentifier(i) for i in range(1, 40)]
    return [parser.number_of_metadata_items] + [
        item and [item.identifier, item.attributes] for item in items]


def _drain_wmi_rep(parser):
    return [list(parser.ReadClassDefinitions()), list(parser.ReadInstances())]


DRIVERS = {target.name: target for target in targets.TARGETS if (
    target.name in FILES or target.name == "firefox_cache1_block")}
DRIVERS["amcache"] = targets.Target("amcache", amcache.WindowsAMCacheFile)
DRIVERS["spotlight"] = targets.Target(
    "spotlight", spotlight_storedb.SpotlightStoreDatabaseFile, drain=_drain_spotlight)
DRIVERS["wmi_rep"] = targets.Target(
    "wmi_rep", wmi_repository.RepositoryFile, drain=_drain_wmi_rep)


def write_spotlight(model, root):
    contents = {}
    contents["store.db"] = spotlight_store.build(model, contents)
    for name, data in contents.items():
        with open(os.path.join(root, name), "wb") as file_object:
            file_object.write(data)
    return os.path.join(root, "store.db")


def write_wmi(model, root):
    contents, _, _ = wmi_repository_objects.build(model)
    wmi_repository_objects.write_files(root, contents, model["case"])
    return root


def _drain_wmi(repository):
    result = []
    for path in list(repository.GetIndexKeys()):
        record = repository.GetObjectRecordByKey(path)
        result.append([path, record and record.data_type, record and bytes(record.data)])
        if not record:
            continue
        if record.data_type == "CD":
            reference = wmi_repository.ClassDefinitionReference()
            reference.ReadObjectRecord(record.data)
            definition = wmi_repository.ClassDefinition()
            definition.ReadClassDefinitionBlock(
                reference.data, record_data_offset=reference.offset)
            result.append([definition.name, definition.super_class_name,
                           sorted(definition.properties)])
        elif record.data_type == "R":
            wmi_repository.Registration().ReadObjectRecord(record.data)
        else:
            wmi_repository.InstanceReference(
                repository.format_version).ReadObjectRecord(record.data)
    return result + [list(repository.GetInstances()), list(repository.GetNamespaces())]


# Formats of several files: strategy and function that writes them.
FOLDERS = {
    "spotlight_folder": (spotlight_store.store(), write_spotlight),
    "wmi_folder": (wmi_repository_objects.repository(), write_wmi),
    "log_archive": (trace_log_entries.MODEL, trace_log_entries.write_files),
}
FOLDER_DRIVERS = {
    "spotlight_folder": DRIVERS["spotlight"],
    "wmi_folder": targets.Target(
        "wmi_folder", wmi_repository.CIMRepository, drain=_drain_wmi),
    "log_archive": targets.Target(
        "log_archive", unified_logging.TraceV3File, drain=lambda p: list(p.ReadLogEntries())),
}
ALL_DRIVERS = {**DRIVERS, **FOLDER_DRIVERS}


def items(target):
    """Returns a strategy of what place can write."""
    return FOLDERS[target][0] if target in FOLDERS else files(target)


def place(target, item, root, damage=None):
    """Writes the file, or the files of the format; returns the path and the contents.

    Args:
      damage (function): changes the content of a file, given the number of the file.
    """
    if target not in FOLDERS:
        name, data = item
        path = os.path.join(root, name)
        with open(path, "wb") as file_object:
            file_object.write(data)
    else:
        path = FOLDERS[target][1](item, root)
    paths = sorted(os.path.join(folder, name) for folder, _, names in os.walk(root)
                   for name in names)
    contents = {path: content(path) for path in paths}
    for number, path_of_file in enumerate(paths):
        data = contents[path_of_file]
        changed = damage(data, number, len(paths)) if damage else data
        if changed != data:
            contents[path_of_file] = changed
            with open(path_of_file, "wb") as file_object:
                file_object.write(changed)
    return path, contents


def content(path):
    with open(path, "rb") as file_object:
        return file_object.read()
