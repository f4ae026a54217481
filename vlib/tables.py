"""Reference dictionaries: Windows / Procmon numeric code -> displayed name.

A frozen, standalone copy; nothing here is imported from the code under test.
"""

RESULTS = {
    0x0: 'SUCCESS',
    0x103: '',
    0x104: 'REPARSE',
    0x105: 'MORE ENTRIES',
    0x108: 'OPLOCK BREAK IN PROGRESS',
    0x10b: 'NOTIFY CLEANUP',
    0x10c: 'NOTIFY ENUM DIR',
    0x12a: 'FILE LOCKED WITH ONLY READERS',
    0x12b: 'FILE LOCKED WITH WRITERS',
    0x215: 'OPLOCK SWITCHED TO NEW HANDLE',
    0x216: 'OPLOCK HANDLE CLOSED',
    0x367: 'WAIT FOR OPLOCK',
    0x40000016: 'PREDEFINED HANDLE',
    0xc0000001: 'UNSUCCESSFUL',
    0x80000015: 'INVALID EA FLAG',
    0x80000002: 'DATATYPE MISALIGNMENT',
    0x80000005: 'BUFFER OVERFLOW',
    0x80000006: 'NO MORE FILES',
    0x8000001a: 'NO MORE ENTRIES',
    0xc0000101: 'NOT EMPTY',
    0xc0000002: 'NOT IMPLEMENTED',
    0xc0000003: 'INVALID INFO CLASS',
    0xc0000004: 'INFO LENGTH MISMATCH',
    0xc0000005: 'ACCESS VIOLATION',
    0xc0000006: 'IN PAGE ERROR',
    0xc0000008: 'INVALID HANDLE',
    0xc000000d: 'INVALID PARAMETER',
    0xc000000e: 'NO SUCH DEVICE',
    0xc000000f: 'NO SUCH FILE',
    0xc0000010: 'INVALID DEVICE REQUEST',
    0xc0000011: 'END OF FILE',
    0xc0000012: 'WRONG VOLUME',
    0xc0000013: 'NO MEDIA',
    0xc0000015: 'NONEXISTENT SECTOR',
    0xc0000017: 'NO MEMORY',
    0xc0000021: 'ALREADY COMMITED',
    0xc0000022: 'ACCESS DENIED',
    0xc0000023: 'BUFFER TOO SMALL',
    0xc0000024: 'OBJECT TYPE MISMATCH',
    0xc0000032: 'DISK CORRUPT',
    0xc0000033: 'NAME INVALID',
    0xc0000034: 'NAME NOT FOUND',
    0xc0000035: 'NAME COLLISION',
    0xc0000039: 'OBJECT PATH INVALID',
    0xc000003a: 'PATH NOT FOUND',
    0xc000003b: 'PATH SYNTAX BAD',
    0xc000003c: 'DATA OVERRUN',
    0xc000003f: 'CRC ERROR',
    0xc0000043: 'SHARING VIOLATION',
    0xc0000044: 'QUOTA EXCEEDED',
    0xc000004f: 'EAS NOT SUPPORTED',
    0xc0000050: 'EA TOO LARGE',
    0xc0000051: 'NONEXISTENT EA ENTRY',
    0xc0000052: 'NO EAS ON FILE',
    0xc0000053: 'EA CORRUPTED ERROR',
    0xc0000054: 'FILE LOCK CONFLICT',
    0xc0000055: 'NOT GRANTED',
    0xc0000056: 'DELETE PENDING',
    0xc0000061: 'PRIVILEGE NOT HELD',
    0xc000006d: 'LOGON FAILURE',
    0xc000007e: 'RANGE NOT LOCKED',
    0xc000007f: 'DISK FULL',
    0xc0000098: 'FILE INVALID',
    0xc000009a: 'INSUFFICIENT RESOURCES',
    0xc000009c: 'DEVICE DATA ERROR',
    0xc000009d: 'DEVICE NOT CONNECTED',
    0xc00000a2: 'MEDIA WRITE PROTECTED',
    0xc00000a5: 'BAD IMPERSONATION',
    0xc00000ab: 'INSTANCE NOT AVAILABLE',
    0xc00000ac: 'PIPE NOT AVAILABLE',
    0xc00000ad: 'INVALID PIPE STATE',
    0xc00000ae: 'PIPE BUSY',
    0xc00000b0: 'PIPE DISCONNECTED',
    0xc00000b1: 'PIPE CLOSING',
    0xc00000b2: 'PIPE CONNECTED',
    0xc00000b3: 'PIPE LISTENING',
    0xc00000b4: 'INVALID READ MODE',
    0xc00000b5: 'IO TIMEOUT',
    0xc00000ba: 'IS DIRECTORY',
    0xc00000bb: 'NOT SUPPORTED',
    0xc00000bd: 'DUPLICATE NAME',
    0xc00000be: 'BAD NETWORK PATH',
    0xc00000c1: 'BAD NETWORK PATH',
    0xc00000c3: 'INVALID NETWORK RESPONSE',
    0xc00000c4: 'NETWORK ERROR',
    0xc00000cc: 'BAD NETWORK NAME',
    0xc00000d4: 'BAD NETWORK NAME',
    0xc00000d8: 'CANT WAIT',
    0xc00000d9: 'PIPE EMPTY',
    0xc00000db: 'CSC OBJECT PATH NOT FOUND',
    0xc00000e2: 'OPLOCK NOT GRANTED',
    0xc00000ef: 'INVALID PARAMETER 1',
    0xc00000f0: 'INVALID PARAMETER 2',
    0xc00000f1: 'INVALID PARAMETER 3',
    0xc00000f2: 'INVALID PARAMETER 4',
    0xc00000fb: 'REDIRECTOR NOT STARTED',
    0xc0000102: 'FILE CORRUPT',
    0xc0000103: 'NOT A DIRECTORY',
    0xc0000107: 'FILES OPEN',
    0xc000010d: 'CANNOT IMPERSONATE',
    0xc0000120: 'CANCELLED',
    0xc0000121: 'CANNOT DELETE',
    0xc0000123: 'FILE DELETED',
    0xc0000128: 'FILE CLOSED',
    0xc000012a: 'THREAD NOT IN PROCESS',
    0xc0000148: 'INVALID LEVEL',
    0xc000014b: 'PIPE BROKEN',
    0xc000014c: 'REGISTRY CORRUPT',
    0xc000014d: 'IO FAILED',
    0xc000017c: 'KEY DELETED',
    0xc0000181: 'CHILD MUST BE VOLATILE',
    0xc0000184: 'INVALID DEVICE STATE',
    0xc0000185: 'IO DEVICE ERROR',
    0xc0000188: 'LOG FILE FULL',
    0xc000019c: 'FS DRIVER REQUIRED',
    0xc0000205: 'INSUFFICIENT SERVER RESOURCES',
    0xc0000207: 'INVALID ADDRESS COMPONENT',
    0xc000020c: 'DISCONNECTED',
    0xc0000225: 'NOT FOUND',
    0xc0000243: 'USER MAPPED FILE',
    0xc0000248: 'LOGIN WKSTA RESTRICTION',
    0xc0000257: 'PATH NOT COVERED',
    0xc000026d: 'DFS UNAVAILABLE',
    0xc0000273: 'NO MORE MATCHES',
    0xc0000275: 'NOT REPARSE POINT',
    0xc00002ea: 'CANNOT MAKE',
    0xc00002f0: 'OBJECTID NOT FOUND',
    0xc0000388: 'DOWNGRADE DETECTED',
    0xc0190044: 'CANNOT EXECUTE FILE IN TRANSACTION',
    0xc0000425: 'HIVE UNLOADED',
    0xc0000427: 'FILE SYSTEM LIMITATION',
    0xc0000463: 'DEVICE FEATURE NOT SUPPORTED',
    0xc000046d: 'OBJECT NOT EXTERNALLY BACKED',
    0xc0000909: 'CANNOT BREAK OPLOCK',
    0xc000a2a1: 'STATUS_OFFLOAD_READ_FLT_NOT_SUPPORTED',
    0xc000a2a2: 'STATUS_OFFLOAD_WRITE_FLT_NOT_SUPPORTED',
    0xc0190001: 'TRANSACTIONAL CONFLICT',
    0xc0190002: 'INVALID TRANSACTION',
    0xc0190003: 'TRANSACTION_NOT_ACTIVE',
    0xc019003e: 'EFS NOT ALLOWED IN TRANSACTION',
    0xc019003f: 'TRANSACTIONAL OPEN NOT ALLOWED',
    0xc0190040: 'TRANSACTED MAPPING UNSUPPORTED REMOTE',
    0xc000a2a3: 'OFFLOAD READ FILE NOT SUPPORTED',
    0xc000a2a4: 'OFFLOAD READ FILE NOT SUPPORTED',
    0xc0190049: 'SPARSE NOT ALLOWED IN TRANSACTION',
    0xc01c0004: 'FAST IO DISALLOWED',
}

IOCTLS = {
    0x24058: 'IOCTL_CDROM_GET_CONFIGURATION',
    0x24800: 'IOCTL_CDROM_CHECK_VERIFY',
    0x24804: 'IOCTL_CDROM_MEDIA_REMOVAL',
    0x24808: 'IOCTL_CDROM_EJECT_MEDIA',
    0x2480c: 'IOCTL_CDROM_LOAD_MEDIA',
    0x41018: 'IOCTL_SCSI_GET_ADDRESS',
    0x41020: 'IOCTL_SCSI_GET_DUMP_POINTERS',
    0x41024: 'IOCTL_SCSI_FREE_DUMP_POINTERS',
    0x4d004: 'IOCTL_SCSI_PASS_THROUGH',
    0x4d014: 'IOCTL_SCSI_PASS_THROUGH_DIRECT',
    0x60198: 'FSCTL_DFS_REPORT_INCONSISTENCY',
    0x60190: 'FSCTL_DFS_TRANSLATE_PATH',
    0x60194: 'FSCTL_DFS_GET_REFERRALS',
    0x6019c: 'FSCTL_DFS_IS_SHARE_IN_DFS',
    0x601a0: 'FSCTL_DFS_IS_ROOT',
    0x601a4: 'FSCTL_DFS_GET_VERSION',
    0x70000: 'IOCTL_DISK_GET_DRIVE_GEOMETRY',
    0x70014: 'IOCTL_DISK_VERIFY',
    0x70020: 'IOCTL_DISK_PERFORMANCE',
    0x70024: 'IOCTL_DISK_IS_WRITABLE',
    0x70028: 'IOCTL_DISK_LOGGING',
    0x70030: 'IOCTL_DISK_HISTOGRAM_STRUCTURE',
    0x70034: 'IOCTL_DISK_HISTOGRAM_DATA',
    0x70038: 'IOCTL_DISK_HISTOGRAM_RESET',
    0x7003c: 'IOCTL_DISK_REQUEST_STRUCTURE',
    0x70040: 'IOCTL_DISK_REQUEST_DATA',
    0x70048: 'IOCTL_DISK_GET_PARTITION_INFO_EX',
    0x70050: 'IOCTL_DISK_GET_DRIVE_LAYOUT_EX',
    0x70060: 'IOCTL_DISK_PERFORMANCE_OFF',
    0x700a0: 'IOCTL_DISK_GET_DRIVE_GEOMETRY_EX',
    0x700f0: 'IOCTL_DISK_GET_DISK_ATTRIBUTES',
    0x70140: 'IOCTL_DISK_UPDATE_PROPERTIES',
    0x70214: 'IOCTL_DISK_GET_CLUSTER_INFO',
    0x70c00: 'IOCTL_DISK_GET_MEDIA_TYPES',
    0x74004: 'IOCTL_DISK_GET_PARTITION_INFO',
    0x7400c: 'IOCTL_DISK_GET_DRIVE_LAYOUT',
    0x7405c: 'IOCTL_DISK_GET_LENGTH_INFO',
    0x74080: 'SMART_GET_VERSION',
    0x740d4: 'IOCTL_DISK_GET_CACHE_INFORMATION',
    0x74800: 'IOCTL_DISK_CHECK_VERIFY',
    0x74804: 'IOCTL_DISK_MEDIA_REMOVAL',
    0x74808: 'IOCTL_DISK_EJECT_MEDIA',
    0x7480c: 'IOCTL_DISK_LOAD_MEDIA',
    0x74810: 'IOCTL_DISK_RESERVE',
    0x74814: 'IOCTL_DISK_RELEASE',
    0x74818: 'IOCTL_DISK_FIND_NEW_DEVICES',
    0x7c008: 'IOCTL_DISK_SET_PARTITION_INFO',
    0x7c010: 'IOCTL_DISK_SET_DRIVE_LAYOUT',
    0x7c018: 'IOCTL_DISK_FORMAT_TRACKS',
    0x7c01c: 'IOCTL_DISK_REASSIGN_BLOCKS',
    0x7c02c: 'IOCTL_DISK_FORMAT_TRACKS_EX',
    0x7c04c: 'IOCTL_DISK_SET_PARTITION_INFO_EX',
    0x7c054: 'IOCTL_DISK_SET_DRIVE_LAYOUT_EX',
    0x7c058: 'IOCTL_DISK_CREATE_DISK',
    0x7c084: 'SMART_SEND_DRIVE_COMMAND',
    0x7c088: 'SMART_RCV_DRIVE_DATA',
    0x7c0a4: 'IOCTL_DISK_REASSIGN_BLOCKS_EX',
    0x7c0c8: 'IOCTL_DISK_UPDATE_DRIVE_SIZE',
    0x7c0d0: 'IOCTL_DISK_GROW_PARTITION',
    0x7c0d8: 'IOCTL_DISK_SET_CACHE_INFORMATION',
    0x7c0f4: 'IOCTL_DISK_SET_DISK_ATTRIBUTES',
    0x7c218: 'IOCTL_DISK_SET_CLUSTER_INFO',
    0x90100: 'FSCTL_SIS_COPYFILE',
    0x90000: 'FSCTL_REQUEST_OPLOCK_LEVEL_1',
    0x90004: 'FSCTL_REQUEST_OPLOCK_LEVEL_2',
    0x90008: 'FSCTL_REQUEST_BATCH_OPLOCK',
    0x9000c: 'FSCTL_OPLOCK_BREAK_ACKNOWLEDGE',
    0x90010: 'FSCTL_OPBATCH_ACK_CLOSE_PENDING',
    0x90014: 'FSCTL_OPLOCK_BREAK_NOTIFY',
    0x90018: 'FSCTL_LOCK_VOLUME',
    0x9001c: 'FSCTL_UNLOCK_VOLUME',
    0x90020: 'FSCTL_DISMOUNT_VOLUME',
    0x90028: 'FSCTL_IS_VOLUME_MOUNTED',
    0x9002c: 'FSCTL_IS_PATHNAME_VALID',
    0x90030: 'FSCTL_MARK_VOLUME_DIRTY',
    0x9003b: 'FSCTL_QUERY_RETRIEVAL_POINTERS',
    0x9003c: 'FSCTL_GET_COMPRESSION',
    0x90050: 'FSCTL_OPLOCK_BREAK_ACK_NO_2',
    0x90058: 'FSCTL_QUERY_FAT_BPB',
    0x9005c: 'FSCTL_REQUEST_FILTER_OPLOCK',
    0x90060: 'FSCTL_FILESYSTEM_GET_STATISTICS',
    0x90064: 'FSCTL_GET_NTFS_VOLUME_DATA',
    0x90068: 'FSCTL_GET_NTFS_FILE_RECORD',
    0x9006f: 'FSCTL_GET_VOLUME_BITMAP',
    0x90073: 'FSCTL_GET_RETRIEVAL_POINTERS',
    0x90074: 'FSCTL_MOVE_FILE',
    0x90078: 'FSCTL_IS_VOLUME_DIRTY',
    0x90083: 'FSCTL_ALLOW_EXTENDED_DASD_IO',
    0x90087: 'FSCTL_READ_PROPERTY_DATA',
    0x9008b: 'FSCTL_WRITE_PROPERTY_DATA',
    0x9008f: 'FSCTL_FIND_FILES_BY_SID',
    0x90097: 'FSCTL_DUMP_PROPERTY_DATA',
    0x90098: 'FSCTL_SET_OBJECT_ID',
    0x9009c: 'FSCTL_GET_OBJECT_ID',
    0x900a0: 'FSCTL_DELETE_OBJECT_ID',
    0x900a4: 'FSCTL_SET_REPARSE_POINT',
    0x900a8: 'FSCTL_GET_REPARSE_POINT',
    0x900ac: 'FSCTL_DELETE_REPARSE_POINT',
    0x900b3: 'FSCTL_ENUM_USN_DATA',
    0x900bb: 'FSCTL_READ_USN_JOURNAL',
    0x900bc: 'FSCTL_SET_OBJECT_ID_EXTENDED',
    0x900c0: 'FSCTL_CREATE_OR_GET_OBJECT_ID',
    0x900c4: 'FSCTL_SET_SPARSE',
    0x900d7: 'FSCTL_SET_ENCRYPTION',
    0x900db: 'FSCTL_ENCRYPTION_FSCTL_IO',
    0x900df: 'FSCTL_WRITE_RAW_ENCRYPTED',
    0x900e3: 'FSCTL_READ_RAW_ENCRYPTED',
    0x900e7: 'FSCTL_CREATE_USN_JOURNAL',
    0x900eb: 'FSCTL_READ_FILE_USN_DATA',
    0x900ef: 'FSCTL_WRITE_USN_CLOSE_RECORD',
    0x900f0: 'FSCTL_EXTEND_VOLUME',
    0x900f4: 'FSCTL_QUERY_USN_JOURNAL',
    0x900f8: 'FSCTL_DELETE_USN_JOURNAL',
    0x900fc: 'FSCTL_MARK_HANDLE',
    0x90120: 'FSCTL_FILE_PREFETCH',
    0x901af: 'CSC_FSCTL_OPERATION_QUERY_HANDLE',
    0x901f0: 'FSCTL_QUERY_DEPENDENT_VOLUME',
    0x90230: 'FSCTL_GET_BOOT_AREA_INFO',
    0x90240: 'FSCTL_REQUEST_OPLOCK',
    0x90244: 'FSCTL_CSV_TUNNEL_REQUEST',
    0x9024c: 'FSCTL_QUERY_FILE_SYSTEM_RECOGNITION',
    0x90254: 'FSCTL_CSV_GET_VOLUME_NAME_FOR_VOLUME_MOUNT_POINT',
    0x90258: 'FSCTL_CSV_GET_VOLUME_PATH_NAMES_FOR_VOLUME_NAME',
    0x9025c: 'FSCTL_IS_FILE_ON_CSV_VOLUME',
    0x90260: 'FSCTL_CORRUPTION_HANDLING',
    0x90270: 'FSCTL_SET_PURGE_FAILURE_MODE',
    0x90277: 'FSCTL_QUERY_FILE_LAYOUT',
    0x90278: 'FSCTL_IS_VOLUME_OWNED_BYCSVFS',
    0x9027c: 'FSCTL_GET_INTEGRITY_INFORMATION',
    0x90284: 'FSCTL_QUERY_FILE_REGIONS',
    0x902b0: 'FSCTL_SCRUB_DATA',
    0x902b8: 'FSCTL_DISABLE_LOCAL_BUFFERING',
    0x9030c: 'FSCTL_SET_EXTERNAL_BACKING',
    0xc4003: 'FSCTL_MAILSLOT_PEEK',
    0x980d0: 'FSCTL_ENABLE_UPGRADE',
    0x941e4: 'FSCTL_TXFS_LIST_TRANSACTIONS',
    0x90310: 'FSCTL_GET_EXTERNAL_BACKING',
    0x940b7: 'FSCTL_SECURITY_ID_CHECK',
    0x940cf: 'FSCTL_QUERY_ALLOCATED_RANGES',
    0x94264: 'FSCTL_OFFLOAD_READ',
    0x980c8: 'FSCTL_SET_ZERO_DATA',
    0x9c104: 'FSCTL_SIS_LINK_FILES',
    0x98208: 'FSCTL_FILE_LEVEL_TRIM',
    0x98268: 'FSCTL_OFFLOAD_WRITE',
    0x9c040: 'FSCTL_SET_COMPRESSION',
    0x9c108: 'FSCTL_HSM_MSG',
    0x9c2b4: 'FSCTL_REPAIR_COPIES',
    0x110020: 'FSCTL_PIPE_SET_CLIENT_PROCESS',
    0x110000: 'FSCTL_PIPE_ASSIGN_EVENT',
    0x110004: 'FSCTL_PIPE_DISCONNECT',
    0x110008: 'FSCTL_PIPE_LISTEN',
    0x110010: 'FSCTL_PIPE_QUERY_EVENT',
    0x110018: 'FSCTL_PIPE_WAIT',
    0x11001c: 'FSCTL_PIPE_IMPERSONATE',
    0x119ff8: 'FSCTL_PIPE_INTERNAL_WRITE',
    0x110024: 'FSCTL_QUERY_CLIENT_PROCESS',
    0x11400c: 'FSCTL_PIPE_PEEK',
    0x116000: 'FSCTL_PIPE_INTERNAL_READ',
    0x11c017: 'FSCTL_PIPE_TRANSCEIVE',
    0x11dfff: 'FSCTL_PIPE_INTERNAL_TRANSCEIVE',
    0x140191: 'FSCTL_LMR_START',
    0x140193: 'IOCTL_SMBMRX_START',
    0x140194: 'FSCTL_LMR_STOP',
    0x140197: 'IOCTL_SMBMRX_STOP',
    0x140198: 'IOCTL_SMBMRX_GETSTATE',
    0x140199: 'FSCTL_NETWORK_SET_CONFIGURATION_INFO',
    0x14019e: 'FSCTL_NETWORK_GET_CONFIGURATION_INFO',
    0x1401a3: 'FSCTL_NETWORK_GET_CONNECTION_INFO',
    0x1401a7: 'FSCTL_NETWORK_ENUMERATE_CONNECTIONS',
    0x1401ab: 'FSCTL_LMR_FORCE_DISCONNECT',
    0x1401ac: 'FSCTL_NETWORK_DELETE_CONNECTION',
    0x1401b0: 'FSCTL_LMR_BIND_TO_TRANSPORT',
    0x1401b4: 'FSCTL_LMR_UNBIND_FROM_TRANSPORT',
    0x1401bb: 'FSCTL_LMR_ENUMERATE_TRANSPORTS',
    0x1401c4: 'FSCTL_LMR_GET_HINT_SIZE',
    0x1401c8: 'FSCTL_LMR_TRANSACT',
    0x1401cc: 'FSCTL_LMR_ENUMERATE_PRINT_INFO',
    0x1401d0: 'FSCTL_NETWORK_GET_STATISTICS',
    0x1401d4: 'FSCTL_LMR_START_SMBTRACE',
    0x1401d8: 'FSCTL_LMR_END_SMBTRACE',
    0x1401dc: 'FSCTL_LMR_START_RBR',
    0x1401e0: 'FSCTL_NETWORK_SET_DOMAIN_NAME',
    0x1401e4: 'FSCTL_LMR_SET_SERVER_GUID',
    0x1401e8: 'FSCTL_LMR_QUERY_TARGET_INFO',
    0x1401ec: 'FSCTL_LMR_QUERY_DEBUG_INFO',
    0x1401f4: 'IOCTL_SMBMRX_ADDCONN',
    0x1401f8: 'IOCTL_SMBMRX_DELCONN',
    0x140fdb: 'IOCTL_SHADOW_END_REINT',
    0x140378: 'IOCTL_UMRX_RELEASE_THREADS',
    0x14037e: 'IOCTL_UMRX_GET_REQUEST',
    0x140382: 'IOCTL_UMRX_RESPONSE_AND_REQUEST',
    0x140386: 'IOCTL_UMRX_RESPONSE',
    0x140388: 'IOCTL_UMRX_GET_LOCK_OWNER',
    0x14038c: 'IOCTL_LMR_QUERY_REMOTE_SERVER_NAME',
    0x140390: 'IOCTL_LMR_DISABLE_LOCAL_BUFFERING',
    0x140394: 'IOCTL_UMRX_PREPARE_QUEUE',
    0x140397: 'IOCTL_LMR_LWIO_POSTIO',
    0x14039b: 'IOCTL_LMR_LWIO_PREIO',
    0x1403e8: 'FSCTL_NETWORK_REMOTE_BOOT_INIT_SCRT',
    0x2d0c00: 'IOCTL_STORAGE_GET_MEDIA_TYPES',
    0x140fff: 'IOCTL_GETSHADOW',
    0x2d0800: 'IOCTL_STORAGE_CHECK_VERIFY2',
    0x2d080c: 'IOCTL_STORAGE_LOAD_MEDIA2',
    0x2d0940: 'IOCTL_STORAGE_EJECTION_CONTROL',
    0x2d0944: 'IOCTL_STORAGE_MCN_CONTROL',
    0x2d0c04: 'IOCTL_STORAGE_GET_MEDIA_TYPES_EX',
    0x2d0c10: 'IOCTL_STORAGE_GET_MEDIA_SERIAL_NUMBER',
    0x2d0c14: 'IOCTL_STORAGE_GET_HOTPLUG_INFO',
    0x2d1080: 'IOCTL_STORAGE_GET_DEVICE_NUMBER',
    0x2d1100: 'IOCTL_STORAGE_PREDICT_FAILURE',
    0x2d1400: 'IOCTL_STORAGE_QUERY_PROPERTY',
    0x530190: 'IOCTL_VOLSNAP_QUERY_ORIGINAL_VOLUME_NAME',
    0x2d5004: 'IOCTL_STORAGE_RESET_DEVICE',
    0x2d4800: 'IOCTL_STORAGE_CHECK_VERIFY',
    0x2d4804: 'IOCTL_STORAGE_MEDIA_REMOVAL',
    0x2d4808: 'IOCTL_STORAGE_EJECT_MEDIA',
    0x2d480c: 'IOCTL_STORAGE_LOAD_MEDIA',
    0x2d4810: 'IOCTL_STORAGE_RESERVE',
    0x2d4814: 'IOCTL_STORAGE_RELEASE',
    0x2d4818: 'IOCTL_STORAGE_FIND_NEW_DEVICES',
    0x2d5000: 'IOCTL_STORAGE_RESET_BUS',
    0x2d518c: 'IOCTL_STORAGE_QUERY_DEPENDENT_DISK',
    0x2d5014: 'IOCTL_STORAGE_BREAK_RESERVATION',
    0x2d5018: 'IOCTL_STORAGE_PERSISTENT_RESERVE_IN',
    0x2d5140: 'IOCTL_STORAGE_READ_CAPACITY',
    0x2dcc18: 'IOCTL_STORAGE_SET_HOTPLUG_INFO',
    0x2dd01c: 'IOCTL_STORAGE_PERSISTENT_RESERVE_OUT',
    0x38a813: 'IOCTL_CHANNEL_GET_SNDCHANNEL',
    0x530018: 'IOCTL_VOLSNAP_QUERY_NAMES_OF_SNAPSHOTS',
    0x4d0000: 'IOCTL_MOUNTDEV_QUERY_UNIQUE_ID',
    0x4d0004: 'IOCTL_MOUNTDEV_UNIQUE_ID_CHANGE_NOTIFY',
    0x4d0008: 'IOCTL_MOUNTDEV_QUERY_DEVICE_NAME',
    0x4d000c: 'IOCTL_MOUNTDEV_QUERY_SUGGESTED_LINK_NAME',
    0x4d0010: 'IOCTL_MOUNTDEV_LINK_CREATED',
    0x4d0014: 'IOCTL_MOUNTDEV_LINK_DELETED',
    0x530024: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA',
    0x53002c: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA_SIZES',
    0x530034: 'IOCTL_VOLSNAP_AUTO_CLEANUP',
    0x53003c: 'IOCTL_VOLSNAP_QUERY_REVERT',
    0x530040: 'IOCTL_VOLSNAP_REVERT_CLEANUP',
    0x530048: 'IOCTL_VOLSNAP_QUERY_REVERT_PROGRESS',
    0x53004c: 'IOCTL_VOLSNAP_CANCEL_REVERT',
    0x530050: 'IOCTL_VOLSNAP_QUERY_EPIC',
    0x53005e: 'IOCTL_VOLSNAP_QUERY_COPY_FREE_BITMAP',
    0x534054: 'IOCTL_VOLSNAP_QUERY_OFFLINE',
    0x53019c: 'IOCTL_VOLSNAP_QUERY_CONFIG_INFO',
    0x5301a0: 'IOCTL_VOLSNAP_HAS_CHANGED',
    0x5301a4: 'IOCTL_VOLSNAP_SET_SNAPSHOT_PRIORITY',
    0x5301a8: 'IOCTL_VOLSNAP_QUERY_SNAPSHOT_PRIORITY',
    0x5301ae: 'IOCTL_VOLSNAP_QUERY_DELTA_BITMAP',
    0x5301b2: 'IOCTL_VOLSNAP_QUERY_SNAPSHOT_SUPPLEMENTAL',
    0x5301b6: 'IOCTL_VOLSNAP_QUERY_COPIED_BITMAP',
    0x5301b8: 'IOCTL_VOLSNAP_QUERY_MOVE_LIST',
    0x5301be: 'IOCTL_VOLSNAP_QUERY_PRE_COPIED_BITMAP',
    0x5301c2: 'IOCTL_VOLSNAP_QUERY_USED_PRE_COPIED_BITMAP',
    0x5301c6: 'IOCTL_VOLSNAP_QUERY_DEFRAG_PRE_COPIED_BITMAP',
    0x5301ca: 'IOCTL_VOLSNAP_QUERY_FREESPACE_PRE_COPIED_BITMAP',
    0x5301ce: 'IOCTL_VOLSNAP_QUERY_HOTBLOCKS_PRE_COPIED_BITMAP',
    0x5301d0: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA_FILE_SIZES',
    0x53c000: 'IOCTL_VOLSNAP_FLUSH_AND_HOLD_WRITES',
    0x534058: 'IOCTL_VOLSNAP_QUERY_DIFF_AREA_MINIMUM_SIZE',
    0x534064: 'IOCTL_VOLSNAP_BLOCK_DELETE_IN_THE_MIDDLE',
    0x534070: 'IOCTL_VOLSNAP_QUERY_APPLICATION_FLAGS',
    0x534080: 'IOCTL_VOLSNAP_QUERY_PERFORMANCE_COUNTERS',
    0x534088: 'IOCTL_VOLSNAP_QUERY_PRE_COPY_AMOUNTS',
    0x53408c: 'IOCTL_VOLSNAP_QUERY_DEFAULT_PRE_COPY_AMOUNTS',
    0x53c198: 'IOCTL_VOLSNAP_SET_APPLICATION_INFO',
    0x53c004: 'IOCTL_VOLSNAP_RELEASE_WRITES',
    0x53c008: 'IOCTL_VOLSNAP_PREPARE_FOR_SNAPSHOT',
    0x53c00c: 'IOCTL_VOLSNAP_ABORT_PREPARED_SNAPSHOT',
    0x53c010: 'IOCTL_VOLSNAP_COMMIT_SNAPSHOT',
    0x53c014: 'IOCTL_VOLSNAP_END_COMMIT_SNAPSHOT',
    0x53c01c: 'IOCTL_VOLSNAP_CLEAR_DIFF_AREA',
    0x53c020: 'IOCTL_VOLSNAP_ADD_VOLUME_TO_DIFF_AREA',
    0x53c028: 'IOCTL_VOLSNAP_SET_MAX_DIFF_AREA_SIZE',
    0x53c030: 'IOCTL_VOLSNAP_DELETE_OLDEST_SNAPSHOT',
    0x53c038: 'IOCTL_VOLSNAP_DELETE_SNAPSHOT',
    0x53c044: 'IOCTL_VOLSNAP_REVERT',
    0x53c068: 'IOCTL_VOLSNAP_SET_MAX_DIFF_AREA_SIZE_TEMP',
    0x53c06c: 'IOCTL_VOLSNAP_SET_APPLICATION_FLAGS',
    0x53c07c: 'IOCTL_VOLSNAP_SET_BC_FAILURE_MODE',
    0x53c084: 'IOCTL_VOLSNAP_SET_PRE_COPY_AMOUNTS',
    0x53c090: 'IOCTL_VOLSNAP_PRE_EXPOSE_DEVICES',
    0x560000: 'IOCTL_VOLUME_GET_VOLUME_DISK_EXTENTS',
    0x560038: 'IOCTL_VOLUME_GET_GPT_ATTRIBUTES',
    0x700010: 'IOCTL_DISK_QUERY_DEVICE_STATE',
    0x704008: 'IOCTL_DISK_QUERY_DISK_SIGNATURE',
}

EVENT_CLASSES = {
    0: 'Unknown',
    1: 'Process',
    2: 'Registry',
    3: 'File_System',
    4: 'Profiling',
    5: 'Network',
}

PROCESS_OPS = {
    0: 'Process_Defined',
    1: 'Process_Create',
    2: 'Process_Exit',
    3: 'Thread_Create',
    4: 'Thread_Exit',
    5: 'Load_Image',
    6: 'Thread_Profile',
    7: 'Process_Start',
    8: 'Process_Statistics',
    9: 'System_Statistics',
}

REGISTRY_OPS = {
    0: 'RegOpenKey',
    1: 'RegCreateKey',
    2: 'RegCloseKey',
    3: 'RegQueryKey',
    4: 'RegSetValue',
    5: 'RegQueryValue',
    6: 'RegEnumValue',
    7: 'RegEnumKey',
    8: 'RegSetInfoKey',
    9: 'RegDeleteKey',
    10: 'RegDeleteValue',
    11: 'RegFlushKey',
    12: 'RegLoadKey',
    13: 'RegUnloadKey',
    14: 'RegRenameKey',
    15: 'RegQueryMultipleValueKey',
    16: 'RegSetKeySecurity',
    17: 'RegQueryKeySecurity',
}

FS_OPS = {
    0: 'VolumeDismount',
    1: 'VolumeMount',
    2: 'FASTIO_MDL_WRITE_COMPLETE',
    3: 'WriteFile2',
    4: 'FASTIO_MDL_READ_COMPLETE',
    5: 'ReadFile2',
    6: 'QueryOpen',
    7: 'FASTIO_CHECK_IF_POSSIBLE',
    8: 'IRP_MJ_12',
    9: 'IRP_MJ_11',
    10: 'IRP_MJ_10',
    11: 'IRP_MJ_9',
    12: 'IRP_MJ_8',
    13: 'FASTIO_NOTIFY_STREAM_FO_CREATION',
    14: 'FASTIO_RELEASE_FOR_CC_FLUSH',
    15: 'FASTIO_ACQUIRE_FOR_CC_FLUSH',
    16: 'FASTIO_RELEASE_FOR_MOD_WRITE',
    17: 'FASTIO_ACQUIRE_FOR_MOD_WRITE',
    18: 'FASTIO_RELEASE_FOR_SECTION_SYNCHRONIZATION',
    19: 'CreateFileMapping',
    20: 'CreateFile',
    21: 'CreatePipe',
    22: 'IRP_MJ_CLOSE',
    23: 'ReadFile',
    24: 'WriteFile',
    25: 'QueryInformationFile',
    26: 'SetInformationFile',
    27: 'QueryEAFile',
    28: 'SetEAFile',
    29: 'FlushBuffersFile',
    30: 'QueryVolumeInformation',
    31: 'SetVolumeInformation',
    32: 'DirectoryControl',
    33: 'FileSystemControl',
    34: 'DeviceIoControl',
    35: 'InternalDeviceIoControl',
    36: 'Shutdown',
    37: 'LockUnlockFile',
    38: 'CloseFile',
    39: 'CreateMailSlot',
    40: 'QuerySecurityFile',
    41: 'SetSecurityFile',
    42: 'Power',
    43: 'SystemControl',
    44: 'DeviceChange',
    45: 'QueryFileQuota',
    46: 'SetFileQuota',
    47: 'PlugAndPlay',
}

PROFILING_OPS = {
    0: 'Thread_Profiling',
    1: 'Process_Profiling',
    2: 'Debug_Output_Profiling',
}

NETWORK_OPS = {
    0: 'Unknown',
    1: 'Other',
    2: 'Send',
    3: 'Receive',
    4: 'Accept',
    5: 'Connect',
    6: 'Disconnect',
    7: 'Reconnect',
    8: 'Retransmit',
    9: 'TCPCopy',
}

FS_SUB_OPS = {
    30: {  # QueryVolumeInformation
        0x1: 'QueryInformationVolume',
        0x2: 'QueryLabelInformationVolume',
        0x3: 'QuerySizeInformationVolume',
        0x4: 'QueryDeviceInformationVolume',
        0x5: 'QueryAttributeInformationVolume',
        0x6: 'QueryControlInformationVolume',
        0x7: 'QueryFullSizeInformationVolume',
        0x8: 'QueryObjectIdInformationVolume',
    },
    31: {  # SetVolumeInformation
        0x1: 'SetControlInformationVolume',
        0x2: 'SetLabelInformationVolume',
        0x8: 'SetObjectIdInformationVolume',
    },
    25: {  # QueryInformationFile
        0x4: 'QueryBasicInformationFile',
        0x5: 'QueryStandardInformationFile',
        0x6: 'QueryFileInternalInformationFile',
        0x7: 'QueryEaInformationFile',
        0x9: 'QueryNameInformationFile',
        0xe: 'QueryPositionInformationFile',
        0x12: 'QueryAllInformationFile',
        0x14: 'QueryEndOfFile',
        0x16: 'QueryStreamInformationFile',
        0x1c: 'QueryCompressionInformationFile',
        0x1d: 'QueryId',
        0x1f: 'QueryMoveClusterInformationFile',
        0x22: 'QueryNetworkOpenInformationFile',
        0x23: 'QueryAttributeTagFile',
        0x25: 'QueryIdBothDirectory',
        0x27: 'QueryValidDataLength',
        0x28: 'QueryShortNameInformationFile',
        0x2b: 'QueryIoPiorityHint',
        0x2e: 'QueryLinks',
        0x30: 'QueryNormalizedNameInformationFile',
        0x31: 'QueryNetworkPhysicalNameInformationFile',
        0x32: 'QueryIdGlobalTxDirectoryInformation',
        0x33: 'QueryIsRemoteDeviceInformation',
        0x34: 'QueryAttributeCacheInformation',
        0x35: 'QueryNumaNodeInformation',
        0x36: 'QueryStandardLinkInformation',
        0x37: 'QueryRemoteProtocolInformation',
        0x38: 'QueryRenameInformationBypassAccessCheck',
        0x39: 'QueryLinkInformationBypassAccessCheck',
        0x3a: 'QueryVolumeNameInformation',
        0x3b: 'QueryIdInformation',
        0x3c: 'QueryIdExtdDirectoryInformation',
        0x3e: 'QueryHardLinkFullIdInformation',
        0x3f: 'QueryIdExtdBothDirectoryInformation',
        0x43: 'QueryDesiredStorageClassInformation',
        0x44: 'QueryStatInformation',
        0x45: 'QueryMemoryPartitionInformation',
        0x46: 'QuerySatLxInformation',
        0x47: 'QueryCaseSensitiveInformation',
        0x48: 'QueryLinkInformationEx',
        0x49: 'QueryLinkInfomraitonBypassAccessCheck',
        0x4a: 'QueryStorageReservedIdInformation',
        0x4b: 'QueryCaseSensitiveInformationForceAccessCheck',
    },
    26: {  # SetInformationFile
        0x4: 'SetBasicInformationFile',
        0xa: 'SetRenameInformationFile',
        0xb: 'SetLinkInformationFile',
        0xd: 'SetDispositionInformationFile',
        0xe: 'SetPositionInformationFile',
        0x13: 'SetAllocationInformationFile',
        0x14: 'SetEndOfFileInformationFile',
        0x16: 'SetFileStreamInformation',
        0x17: 'SetPipeInformation',
        0x27: 'SetValidDataLengthInformationFile',
        0x28: 'SetShortNameInformation',
        0x3d: 'SetReplaceCompletionInformation',
        0x40: 'SetDispositionInformationEx',
        0x41: 'SetRenameInformationEx',
        0x42: 'SetRenameInformationExBypassAccessCheck',
        0x4a: 'SetStorageReservedIdInformation',
    },
    32: {  # DirectoryControl
        0x1: 'QueryDirectory',
        0x2: 'NotifyChangeDirectory',
    },
    47: {  # PlugAndPlay
        0x0: 'StartDevice',
        0x1: 'QueryRemoveDevice',
        0x2: 'RemoveDevice',
        0x3: 'CancelRemoveDevice',
        0x4: 'StopDevice',
        0x5: 'QueryStopDevice',
        0x6: 'CancelStopDevice',
        0x7: 'QueryDeviceRelations',
        0x8: 'QueryInterface',
        0x9: 'QueryCapabilities',
        0xa: 'QueryResources',
        0xb: 'QueryResourceRequirements',
        0xc: 'QueryDeviceText',
        0xd: 'FilterResourceRequirements',
        0xf: 'ReadConfig',
        0x10: 'WriteConfig',
        0x11: 'Eject',
        0x12: 'SetLock',
        0x13: 'QueryId2',
        0x14: 'QueryPnpDeviceState',
        0x15: 'QueryBusInformation',
        0x16: 'DeviceUsageNotification',
        0x17: 'SurpriseRemoval',
        0x18: 'QueryLegacyBusInformation',
    },
    37: {  # LockUnlockFile
        0x1: 'LockFile',
        0x2: 'UnlockFileSingle',
        0x3: 'UnlockFileAll',
        0x4: 'UnlockFileByKey',
    },
}

REG_COMMON_ACCESS = {
    0x10000: 'Delete',
    0x20000: 'Read Control',
    0x40000: 'Write DAC',
    0x80000: 'Write Owner',
    0x100000: 'Synchronize',
    0x1000000: 'Access System Security',
    0x2000000: 'Maximum Allowed',
}

REG_ACCESS = {
    0xf003f: 'All Access',
    0x2001f: 'Read/Write',
    0x20019: 'Read',
    0x20006: 'Write',
    0x1: 'Query Value',
    0x2: 'Set Value',
    0x4: 'Create Sub Key',
    0x8: 'Enumerate Sub Keys',
    0x10: 'Notify',
    0x20: 'Create Link',
    0x300: 'WOW64_Res',
    0x200: 'WOW64_32Key',
    0x100: 'WOW64_64Key',
    0x10000: 'Delete',
    0x20000: 'Read Control',
    0x40000: 'Write DAC',
    0x80000: 'Write Owner',
    0x100000: 'Synchronize',
    0x1000000: 'Access System Security',
    0x2000000: 'Maximum Allowed',
}

FS_ACCESS = {
    0x1f01ff: 'All Access',
    0x1201bf: 'Generic Read/Write/Execute',
    0x12019f: 'Generic Read/Write',
    0x1200a9: 'Generic Read/Execute',
    0x1201b6: 'Generic Write/Execute',
    0x120089: 'Generic Read',
    0x120116: 'Generic Write',
    0x1200a0: 'Generic Execute',
    0x1: 'Read Data/List Directory',
    0x2: 'Write Data/Add File',
    0x4: 'Append Data/Add Subdirectory/Create Pipe Instance',
    0x8: 'Read EA',
    0x10: 'Write EA',
    0x20: 'Execute/Traverse',
    0x40: 'Delete Child',
    0x80: 'Read Attributes',
    0x100: 'Write Attributes',
    0x10000: 'Delete',
    0x20000: 'Read Control',
    0x40000: 'Write DAC',
    0x80000: 'Write Owner',
    0x100000: 'Synchronize',
    0x1000000: 'Access System Security',
    0x2000000: 'Maximum Allowed',
}

CREATE_OPTIONS = {
    0x1: 'Directory',
    0x2: 'Write Through',
    0x4: 'Sequential Access',
    0x8: 'No Buffering',
    0x10: 'Synchronous IO Alert',
    0x20: 'Synchronous IO Non-Alert',
    0x40: 'Non-Directory File',
    0x80: 'Create Tree Connection',
    0x100: 'Complete If Oplocked',
    0x200: 'No EA Knowledge',
    0x400: 'Open for Recovery',
    0x800: 'Random Access',
    0x1000: 'Delete On Close',
    0x2000: 'Open By ID',
    0x4000: 'Open For Backup',
    0x8000: 'No Compression',
    0x100000: 'Reserve OpFilter',
    0x200000: 'Open Reparse Point',
    0x400000: 'Open No Recall',
    0x800000: 'Open For Free Space Query',
    0x10000: 'Open Requiring Oplock',
    0x20000: 'Disallow Exclusive',
}

CREATE_ATTRIBUTES = {
    0x1: 'R',
    0x2: 'H',
    0x4: 'S',
    0x10: 'D',
    0x20: 'A',
    0x40: 'D',
    0x80: 'N',
    0x100: 'T',
    0x200: 'SF',
    0x400: 'RP',
    0x800: 'C',
    0x1000: 'O',
    0x2000: 'NCI',
    0x4000: 'E',
    0x10000: 'V',
}

SHARE_MODE = {
    0x1: 'Read',
    0x2: 'Write',
    0x4: 'Delete',
}

IO_FLAGS = {
    0x10: 'Buffered',
    0x1: 'Non-cached',
    0x2: 'Paging I/O',
    0x4: 'Synchronous',
    0x40: 'Synchronous Paging I/O',
    0x400000: 'Write Through',
}

PRIORITY = {
    0: '',
    1: 'Very Low',
    2: 'Low',
    3: 'Normal',
    4: 'High',
    5: 'Critical',
}

REG_TYPES = {
    0: 'REG_NONE',
    1: 'REG_SZ',
    2: 'REG_EXPAND_SZ',
    3: 'REG_BINARY',
    4: 'REG_DWORD',
    5: 'REG_DWORD_BIG_ENDIAN',
    6: 'REG_LINK',
    7: 'REG_MULTI_SZ',
    8: 'REG_RESOURCE_LIST',
    9: 'REG_FULL_RESOURCE_DESCRIPTOR',
    10: 'REG_RESOURCE_REQUIREMENTS_LIST',
    11: 'REG_QWORD',
}

KEY_VALUE_INFO = {
    0: 'KeyValueBasicInformation',
    1: 'KeyValueFullInformation',
    2: 'KeyValuePartialInformation',
    3: 'KeyValueFullInformationAlign64',
    4: 'KeyValuePartialInformationAlign64',
    5: 'KeyValueLayerInformation',
}

KEY_INFO = {
    0: 'Basic',
    1: 'Node',
    2: 'Full',
    3: 'Name',
    4: 'Cached',
    5: 'Flags',
    6: 'Virtualization',
    7: 'HandleTags',
    8: 'Trust',
    9: 'Layer',
}

KEY_SET_INFO = {
    0: 'KeyWriteTimeInformation',
    1: 'KeyWow64FlagsInformation',
    5: 'KeySetHandleTagsInformation',
}

REG_DISPOSITION = {
    1: 'REG_CREATED_NEW_KEY',
    2: 'REG_OPENED_EXISTING_KEY',
}

FS_DISPOSITION = {
    0: 'Supersede',
    1: 'Open',
    2: 'Create',
    3: 'OpenIf',
    4: 'Overwrite',
    5: 'OverwriteIf',
}

OPEN_RESULT = {
    0: 'Superseded',
    1: 'Opened',
    2: 'Created',
    3: 'Overwritten',
    4: 'Exists',
    5: 'DoesNotExist',
}

FILE_INFO = {
    0: 'Unknown',
    1: 'FileDirectoryInformation',
    2: 'FileFullDirectoryInformation',
    3: 'FileBothDirectoryInformation',
    4: 'FileBasicInformation',
    5: 'FileStandardInformation',
    6: 'FileInternalInformation',
    7: 'FileEaInformation',
    8: 'FileAccessInformation',
    9: 'FileNameInformation',
    10: 'FileRenameInformation',
    11: 'FileLinkInformation',
    12: 'FileNamesInformation',
    13: 'FileDispositionInformation',
    14: 'FilePositionInformation',
    15: 'FileFullEaInformation',
    16: 'FileModeInformation',
    17: 'FileAlignmentInformation',
    18: 'FileAllInformation',
    19: 'FileAllocationInformation',
    20: 'FileEndOfFileInformation',
    21: 'FileAlternateNameInformation',
    22: 'FileStreamInformation',
    23: 'FilePipeInformation',
    24: 'FilePipeLocalInformation',
    25: 'FilePipeRemoteInformation',
    26: 'FileMailslotQueryInformation',
    27: 'FileMailslotSetInformation',
    28: 'FileCompressionInformation',
    29: 'FileObjectIdInformation',
    30: 'FileCompletionInformation',
    31: 'FileMoveClusterInformation',
    32: 'FileQuotaInformation',
    33: 'FileReparsePointInformation',
    34: 'FileNetworkOpenInformation',
    35: 'FileAttributeTagInformation',
    36: 'FileTrackingInformation',
    37: 'FileIdBothDirectoryInformation',
    38: 'FileIdFullDirectoryInformation',
    39: 'FileValidDataLengthInformation',
    40: 'FileShortNameInformation',
    41: 'FileIoCompletionNotificationInformation',
    42: 'FileIoStatusBlockRangeInformation',
    43: 'FileIoPriorityHintInformation',
    44: 'FileSfioReserveInformation',
    45: 'FileSfioVolumeInformation',
    46: 'FileHardLinkInformation',
    47: 'FileProcessIdsUsingFileInformation',
    48: 'FileNormalizedNameInformation',
    49: 'FileNetworkPhysicalNameInformation',
    50: 'FileIdGlobalTxDirectoryInformation',
    51: 'FileIsRemoteDeviceInformation',
    52: 'FileUnusedInformation',
    53: 'FileNumaNodeInformation',
    54: 'FileStandardLinkInformation',
    55: 'FileRemoteProtocolInformation',
    56: 'FileRenameInformationBypassAccessCheck',
    57: 'FileLinkInformationBypassAccessCheck',
    58: 'FileVolumeNameInformation',
    59: 'FileIdInformation',
    60: 'FileIdExtdDirectoryInformation',
    61: 'FileReplaceCompletionInformation',
    62: 'FileHardLinkFullIdInformation',
    63: 'FileIdExtdBothDirectoryInformation',
    64: 'FileDispositionInformationEx',
    65: 'FileRenameInformationEx',
    66: 'FileRenameInformationExBypassAccessCheck',
    67: 'FileDesiredStorageClassInformation',
    68: 'FileStatInformation',
    69: 'FileMemoryPartitionInformation',
    70: 'FileMaximumInformation',
    71: 'SeShutdownPrivilege',
    72: 'SeChangeNotifyPrivilege',
    73: 'SeUndockPrivilege',
    74: 'SeIncreaseWorkingSetPrivilege',
    75: 'SeTimeZonePrivilege',
}

NOTIFY = {
    0x1: 'FILE_NOTIFY_CHANGE_FILE_NAME',
    0x2: 'FILE_NOTIFY_CHANGE_DIR_NAME',
    0x3: 'FILE_NOTIFY_CHANGE_NAME',
    0x4: 'FILE_NOTIFY_CHANGE_ATTRIBUTES',
    0x8: 'FILE_NOTIFY_CHANGE_SIZE',
    0x10: 'FILE_NOTIFY_CHANGE_LAST_WRITE',
    0x20: 'FILE_NOTIFY_CHANGE_LAST_ACCESS',
    0x40: 'FILE_NOTIFY_CHANGE_CREATION',
    0x80: 'FILE_NOTIFY_CHANGE_EA',
    0x100: 'FILE_NOTIFY_CHANGE_SECURITY',
    0x200: 'FILE_NOTIFY_CHANGE_STREAM_NAME',
    0x400: 'FILE_NOTIFY_CHANGE_STREAM_SIZE',
    0x800: 'FILE_NOTIFY_CHANGE_STREAM_WRITE',
}

SYNC_TYPE = {
    0: 'SyncTypeOther',
    1: 'SyncTypeCreateSection',
}

PAGE_PROT = {
    0x2: 'PAGE_READONLY',
    0x4: 'PAGE_READWRITE',
    0x8: 'PAGE_WRITECOPY',
    0x10: 'PAGE_EXECUTE',
    0x20: 'PAGE_EXECUTE_READ',
    0x40: 'PAGE_EXECUTE_READWRITE',
    0x200: 'PAGE_NOCACHE',
}

COLUMNS = {
    0: 'NONE',
    40052: 'DATE_AND_TIME',
    40053: 'PROCESS_NAME',
    40054: 'PID',
    40055: 'OPERATION',
    40056: 'RESULT',
    40057: 'DETAIL',
    40058: 'SEQUENCE',
    40064: 'COMPANY',
    40065: 'DESCRIPTION',
    40066: 'COMMAND_LINE',
    40067: 'USER',
    40068: 'IMAGE_PATH',
    40069: 'SESSION',
    40071: 'PATH',
    40072: 'TID',
    40076: 'RELATIVE_TIME',
    40077: 'DURATION',
    40078: 'TIME_OF_DAY',
    40081: 'VERSION',
    40082: 'EVENT_CLASS',
    40083: 'AUTHENTICATION_ID',
    40084: 'VIRTUALIZED',
    40085: 'INTEGRITY',
    40086: 'CATEGORY',
    40087: 'PARENT_PID',
    40088: 'ARCHITECTURE',
    40164: 'COMPLETION_TIME',
}

COLUMN_TITLES = {
    40052: 'Date & Time',
    40053: 'Process Name',
    40054: 'PID',
    40055: 'Operation',
    40056: 'Result',
    40057: 'Detail',
    40058: 'Sequence',
    40064: 'Company',
    40065: 'Description',
    40066: 'Command Line',
    40067: 'User',
    40068: 'Image Path',
    40069: 'Session',
    40071: 'Path',
    40072: 'TID',
    40076: 'Relative Time',
    40077: 'Duration',
    40078: 'Time of Day',
    40081: 'Version',
    40082: 'Event Class',
    40083: 'Authentication ID',
    40084: 'Virtualized',
    40085: 'Integrity',
    40086: 'Category',
    40087: 'Parent PID',
    40088: 'Architecture',
    40164: 'Completion Time',
}

RELATIONS = {
    0: 'IS',
    1: 'IS_NOT',
    2: 'LESS_THAN',
    3: 'MORE_THAN',
    4: 'BEGINS_WITH',
    5: 'ENDS_WITH',
    6: 'CONTAINS',
    7: 'EXCLUDES',
}

ACTIONS = {
    0: 'EXCLUDE',
    1: 'INCLUDE',
}
