//! The registered partition type GUIDs, written down independently of the library's table
//! (and compared once, by hand, against the published lists).
use gpt::partition_types::{self as pt, OperatingSystem as Os, Type};

pub struct Known {
    pub name: &'static str,
    pub guid: u128,
    pub os: Os,
    pub konst: Type,
}
pub fn known() -> Vec<Known> {
    macro_rules! t {
        ($($n:ident $g:literal $o:ident;)*) => { vec![$(Known { name: stringify!($n), guid: $g, os: Os::$o, konst: pt::$n }),*] };
    }
    t! {
        UNUSED 0x00000000_0000_0000_0000_000000000000 None;
        MBR 0x024DEE41_33E7_11D3_9D69_0008C781F39F None;
        EFI 0xC12A7328_F81F_11D2_BA4B_00A0C93EC93B None;
        BIOS 0x21686148_6449_6E6F_744E_656564454649 None;
        FLASH 0xD3BFE2DE_3DAF_11DF_BA40_E3A556D89593 None;
        SONY_BOOT 0xF4019732_066E_4E12_8273_346C5641494F None;
        LENOVO_BOOT 0xBFBFAFE7_A34F_448A_9A5B_6213EB736C22 None;
        MICROSOFT_RESERVED 0xE3C9E316_0B5C_4DB8_817D_F92DF00215AE Windows;
        BASIC 0xEBD0A0A2_B9E5_4433_87C0_68B6B72699C7 Windows;
        WINDOWS_METADATA 0x5808C8AA_7E8F_42E0_85D2_E1E90434CFB3 Windows;
        WINDOWS_DATA 0xAF9B60A0_1431_4F62_BC68_3311714A69AD Windows;
        WINDOWS_RECOVERY 0xDE94BBA4_06D1_4D40_A16A_BFD50179D6AC Windows;
        WINDOWS_PARALLEL 0x37AFFC90_EF7D_4E96_91C3_2D7AE055B174 Windows;
        WINDOWS_STORAGESPACES 0xE75CAF8F_F680_4CEE_AFA3_B001E56EFC2D Windows;
        HPUNIX_DATA 0x75894C1E_3AEB_11D3_B7C1_7B03A0000000 HpUnix;
        HPUNIX_SERVICE 0xE2A1E728_32E3_11D6_A682_7B03A0000000 HpUnix;
        LINUX_FS 0x0FC63DAF_8483_4772_8E79_3D69D8477DE4 Linux;
        LINUX_RAID 0xA19D880F_05FC_4D3B_A006_743F0F84911E Linux;
        LINUX_ROOT_X86 0x44479540_F297_41B2_9AF7_D131D5F0458A Linux;
        LINUX_ROOT_X64 0x4F68BCE3_E8CD_4DB1_96E7_FBCAF984B709 Linux;
        LINUX_ROOT_ARM_32 0x69DAD710_2CE4_4E3C_B16C_21A1D49ABED3 Linux;
        LINUX_ROOT_ARM_64 0xB921B045_1DF0_41C3_AF44_4C6F280D3FAE Linux;
        LINUX_SWAP 0x0657FD6D_A4AB_43C4_84E5_0933C84B4F4F Linux;
        LINUX_LVM 0xE6D6D379_F507_44C2_A23C_238F2A3DF928 Linux;
        LINUX_HOME 0x933AC7E1_2EB4_4F13_B844_0E14E2AEF915 Linux;
        LINUX_SRV 0x3B8F8425_20E0_4F3B_907F_1A25A76F98E8 Linux;
        LINUX_DMCRYPT 0x7FFEC5C9_2D00_49B7_8941_3EA10A5586B7 Linux;
        LINUX_LUKS 0xCA7D7CCB_63ED_4C53_861C_1742536059CC Linux;
        LINUX_RESERVED 0x8DA63339_0007_60C0_C436_083AC8230908 Linux;
        FREEBSD_DATA 0x516E7CB4_6ECF_11D6_8FF8_00022D09712B FreeBsd;
        FREEBSD_BOOT 0x83BD6B9D_7F41_11DC_BE0B_001560B84F0F FreeBsd;
        FREEBSD_SWAP 0x516E7CB5_6ECF_11D6_8FF8_00022D09712B FreeBsd;
        FREEBSD_UFS 0x516E7CB6_6ECF_11D6_8FF8_00022D09712B FreeBsd;
        FREEBSD_VINIUM 0x516E7CB8_6ECF_11D6_8FF8_00022D09712B FreeBsd;
        FREEBSD_ZFS 0x516E7CBA_6ECF_11D6_8FF8_00022D09712B FreeBsd;
        DRAGONFLY_DATA 0x3D48CE54_1D16_11DC_8696_01301BB8A9F5 DragonFlyBsd;
        MACOS_HFSPLUS 0x48465300_0000_11AA_AA11_00306543ECAC MacOs;
        MACOS_UFS 0x55465300_0000_11AA_AA11_00306543ECAC MacOs;
        MACOS_ZFS 0x6A898CC3_1DD2_11B2_99A6_080020736631 MacOs;
        MACOS_RAID 0x52414944_0000_11AA_AA11_00306543ECAC MacOs;
        MACOS_RAID_OFFLINE 0x52414944_5F4F_11AA_AA11_00306543ECAC MacOs;
        MACOS_RECOVERY 0x426F6F74_0000_11AA_AA11_00306543ECAC MacOs;
        MACOS_LABEL 0x4C616265_6C00_11AA_AA11_00306543ECAC MacOs;
        MACOS_TV_RECOVERY 0x5265636F_7665_11AA_AA11_00306543ECAC MacOs;
        MACOS_CORE 0x53746F72_6167_11AA_AA11_00306543ECAC MacOs;
        MACOS_SOFTRAID_STATUS 0xB6FA30DA_92D2_4A9A_96F1_871EC6486200 MacOs;
        MACOS_SOFTRAID_SCRATCH 0x2E313465_19B9_463F_8126_8A7993773801 MacOs;
        MACOS_SOFTRAID_VOLUME 0xFA709C7E_65B1_4593_BFD5_E71D61DE9B02 MacOs;
        MACOS_SOFTRAID_CACHE 0xBBBA6DF5_F46F_4A89_8F59_8765B2727503 MacOs;
        MACOS_APFS 0x7C3457EF_0000_11AA_AA11_00306543ECAC MacOs;
        SOLARIS_BOOT 0x6A82CB45_1DD2_11B2_99A6_080020736631 Solaris;
        SOLARIS_ROOT 0x6A85CF4D_1DD2_11B2_99A6_080020736631 Solaris;
        SOLARIS_SWAP 0x6A87C46F_1DD2_11B2_99A6_080020736631 Solaris;
        SOLARIS_BACKUP 0x6A8B642B_1DD2_11B2_99A6_080020736631 Solaris;
        SOLARIS_VAR 0x6A8EF2E9_1DD2_11B2_99A6_080020736631 Solaris;
        SOLARIS_HOME 0x6A90BA39_1DD2_11B2_99A6_080020736631 Solaris;
        SOLARIS_ALT 0x6A9283A5_1DD2_11B2_99A6_080020736631 Solaris;
        SOLARIS_RESERVED1 0x6A945A3B_1DD2_11B2_99A6_080020736631 Solaris;
        SOLARIS_RESERVED2 0x6A9630D1_1DD2_11B2_99A6_080020736631 Solaris;
        SOLARIS_RESERVED3 0x6A980767_1DD2_11B2_99A6_080020736631 Solaris;
        SOLARIS_RESERVED4 0x6A96237F_1DD2_11B2_99A6_080020736631 Solaris;
        SOLARIS_RESERVED5 0x6A8D2AC7_1DD2_11B2_99A6_080020736631 Solaris;
        NETBSD_SWAP 0x49F48D32_B10E_11DC_B99B_0019D1879648 NetBsd;
        NETBSD_FFS 0x49F48D5A_B10E_11DC_B99B_0019D1879648 NetBsd;
        NETBSD_LFS 0x49F48D82_B10E_11DC_B99B_0019D1879648 NetBsd;
        NETBSD_RAID 0x49F48DAA_B10E_11DC_B99B_0019D1879648 NetBsd;
        NETBSD_CONCAT 0x2DB519C4_B10F_11DC_B99B_0019D1879648 NetBsd;
        NETBSD_ENCRYPTED 0x2DB519EC_B10F_11DC_B99B_0019D1879648 NetBsd;
        CHROME_KERNEL 0xFE3A2A5D_4F32_41A7_B725_ACCC3285A309 Chrome;
        CHROME_ROOTFS 0x3CB8E202_3B7E_47DD_8A3C_7FF2A13CFCEC Chrome;
        CHROME_FUTURE 0x2E0A753D_9E48_43B0_8337_B15192CB1B5E Chrome;
        CHROME_RWFW 0xCAB6E88E_ABF3_4102_A07A_D4BB9BE3C1D3 Chrome;
        COREOS_USR 0x5DFBF5F4_2848_4BAC_AA5E_0D9A20B745A6 CoreOs;
        COREOS_ROOTFS_RESIZE 0x3884DD41_8582_4404_B9A8_E9B84F2DF50E CoreOs;
        COREOS_OEM 0xC95DC21A_DF0E_4340_8D7B_26CBFA9A03E0 CoreOs;
        COREOS_ROOT_RAID 0xBE9067B9_EA49_4F15_B4F6_F36F8C9E1818 CoreOs;
        HAIKU_BFS 0x42465331_3BA3_10F1_802A_4861696B7521 Haiku;
        MIDNIGHT_BOOT 0x85D5E45E_237C_11E1_B4B3_E89A8F7FC3A7 MidnightBsd;
        MIDNIGHT_DATA 0x85D5E45A_237C_11E1_B4B3_E89A8F7FC3A7 MidnightBsd;
        MIDNIGHT_SWAP 0x85D5E45B_237C_11E1_B4B3_E89A8F7FC3A7 MidnightBsd;
        MIDNIGHT_UFS 0x0394EF8B_237E_11E1_B4B3_E89A8F7FC3A7 MidnightBsd;
        MIDNIGHT_VINIUM 0x85D5E45C_237C_11E1_B4B3_E89A8F7FC3A7 MidnightBsd;
        MIDNIGHT_ZFS 0x85D5E45D_237C_11E1_B4B3_E89A8F7FC3A7 MidnightBsd;
        CEPH_JOURNAL 0x45B0969E_9B03_4F30_B4C6_B4B80CEFF106 Ceph;
        CEPH_CRYPT_JOURNAL 0x45B0969E_9B03_4F30_B4C6_5EC00CEFF106 Ceph;
        CEPH_OSD 0x4FBD7E29_9D25_41B8_AFD0_062C0CEFF05D Ceph;
        CEPH_CRYPT 0x4FBD7E29_9D25_41B8_AFD0_5EC00CEFF05D Ceph;
        CEPH_DISK_CREATION 0x89C57F98_2FE5_4DC0_89C1_F3AD0CEFF2BE Ceph;
        CEPH_CRYPT_CREATION 0x89C57F98_2FE5_4DC0_89C1_5EC00CEFF2BE Ceph;
        OPENBSD_DATA 0x824CC7A0_36A8_11E3_890A_952519AD3F61 OpenBsd;
        QNX_FS 0xCEF5A9AD_73BC_4601_89F3_CDEEEEE321A1 QNX;
        PLAN9_PART 0xC91818F9_8025_47AF_89D2_F030D7000C2C Plan9;
        VMWARE_COREDUMP 0x9D275380_40AD_11DB_BF97_000C2911D1B8 VmWare;
        VMWARE_VMFS 0xAA31E02A_400F_11DB_9590_000C2911D1B8 VmWare;
        VMWARE_RESERVED 0x9198EFFC_31C0_11DB_8F78_000C2911D1B8 VmWare;
        ANDROID_BOOTLOADER 0x2568845D_2332_4675_BC39_8FA5A4748D15 Android;
        ANDROID_BOOTLOADER2 0x114EAFFE_1552_4022_B26E_9B053604CF84 Android;
        ANDROID_BOOT 0x49A4D17F_93A3_45C1_A0DE_F50B2EBE2599 Android;
        ANDROID_RECOVERY 0x4177C722_9E92_4AAB_8644_43502BFD5506 Android;
        ANDROID_MISC 0xEF32A33B_A409_486C_9141_9FFB711F6266 Android;
        ANDROID_META 0x20AC26BE_20B7_11E3_84C5_6CFDB94711E9 Android;
        ANDROID_SYSTEM 0x38F428E6_D326_425D_9140_6E0EA133647C Android;
        ANDROID_CACHE 0xA893EF21_E428_470A_9E55_0668FD91A2D9 Android;
        ANDROID_DATA 0xDC76DDA9_5AC1_491C_AF42_A82591580C0D Android;
        ANDROID_PERSISTENT 0xEBC597D0_2053_4B15_8B64_E0AAC75F4DB1 Android;
        ANDROID_FACTORY 0x8F68CC74_C5E5_48DA_BE91_A0C8C15E9C80 Android;
        ANDROID_FASTBOOT 0x767941D0_2085_11E3_AD3B_6CFDB94711E9 Android;
        ANDROID_OEM 0xAC6D7924_EB71_4DF8_B48D_E267B27148FF Android;
        ONIE_BOOT 0x7412F7D5_A156_4B13_81DC_867174929325 Onie;
        ONIE_CONFIG 0xD4E6E2CD_4469_46F3_B5CB_1BFF57AFC149 Onie;
        PPC_BOOT 0x9E1A2D38_C612_4316_AA26_8B49521E5A8B PowerPc;
        FREEDESK_BOOT 0xBC13C2FF_59E6_4262_A352_B275FD6F7172 FreeDesktop;
        ATARI_DATA 0x734E5AFE_F61A_11E6_BC64_92361F002671 Atari;
    }
}
