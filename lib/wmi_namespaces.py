"""Reference: the well-known WMI namespaces (documentation)."""

NAMES = r"""
__SystemClass
ROOT
ROOT\Appv
ROOT\CIMV2
ROOT\CIMV2\Applications
ROOT\CIMV2\Applications\MicrosoftIE
ROOT\CIMV2\mdm
ROOT\CIMV2\mdm\dmmap
ROOT\CIMV2\power
ROOT\CIMV2\Security
ROOT\CIMV2\Security\MicrosoftTpm
ROOT\CIMV2\Security\MicrosoftVolumeEncryption
ROOT\CIMV2\TerminalServices
ROOT\Cli
ROOT\dcim
ROOT\dcim\sysman
ROOT\dcim\sysman\biosattributes
ROOT\dcim\sysman\wmisecurity
ROOT\DEFAULT
ROOT\directory
ROOT\directory\LDAP
ROOT\Hardware
ROOT\Intel_ME
ROOT\Interop
ROOT\Microsoft
ROOT\Microsoft\HomeNet
ROOT\Microsoft\protectionManagement
ROOT\Microsoft\SecurityClient
ROOT\Microsoft\Uev
ROOT\Microsoft\Windows
ROOT\Microsoft\Windows\AppBackgroundTask
ROOT\Microsoft\Windows\CI
ROOT\Microsoft\Windows\Defender
ROOT\Microsoft\Windows\DeliveryOptimization
ROOT\Microsoft\Windows\DesiredStateConfiguration
ROOT\Microsoft\Windows\DesiredStateConfigurationProxy
ROOT\Microsoft\Windows\DeviceGuard
ROOT\Microsoft\Windows\dfsn
ROOT\Microsoft\Windows\DHCP
ROOT\Microsoft\Windows\Dns
ROOT\Microsoft\Windows\EventTracingManagement
ROOT\Microsoft\Windows\HardwareManagement
ROOT\Microsoft\Windows\Hgs
ROOT\Microsoft\Windows\Powershellv3
ROOT\Microsoft\Windows\PS_MMAgent
ROOT\Microsoft\Windows\RemoteAccess
ROOT\Microsoft\Windows\RemoteAccess\Client
ROOT\Microsoft\Windows\SMB
ROOT\Microsoft\Windows\SmbWitness
ROOT\Microsoft\Windows\Storage
ROOT\Microsoft\Windows\Storage\Providers_v2
ROOT\Microsoft\Windows\Storage\PT
ROOT\Microsoft\Windows\Storage\PT\Alt
ROOT\Microsoft\Windows\StorageReplica
ROOT\Microsoft\Windows\TaskScheduler
ROOT\Microsoft\Windows\Wdac
ROOT\Microsoft\Windows\WindowsUpdate
ROOT\Microsoft\Windows\winrm
ROOT\MSAPPS10
ROOT\msdtc
ROOT\MSPS
ROOT\nap
ROOT\NetFrameworkv1
ROOT\PEH
ROOT\Policy
ROOT\RSOP
ROOT\RSOP\Computer
ROOT\RSOP\User
ROOT\SECURITY
ROOT\SecurityCenter
ROOT\SecurityCenter2
ROOT\ServiceModel
ROOT\StandardCimv2
ROOT\StandardCimv2\embedded
ROOT\subscription
ROOT\WMI
""".split()
