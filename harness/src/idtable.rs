//! Generated by tools/gen_idtable.py (Unicode 15.0.0).

/// First character of each run and its class: 0 no identifier character, 1 continues an identifier,
/// 2 starts one, too, 3 unknown to the table.
pub const RUNS: [(u32, u8); 2136] = [
    (0x0, 0), (0x2D, 1), (0x2E, 0), (0x30, 1), (0x3A, 0), (0x41, 2), (0x5B, 0), (0x5F, 2),
    (0x60, 0), (0x61, 2), (0x7B, 0), (0xAA, 2), (0xAB, 0), (0xB5, 2), (0xB6, 0), (0xB7, 1),
    (0xB8, 0), (0xBA, 2), (0xBB, 0), (0xC0, 2), (0xD7, 0), (0xD8, 2), (0xF7, 0), (0xF8, 2),
    (0x2C2, 0), (0x2C6, 2), (0x2D2, 0), (0x2E0, 2), (0x2E5, 0), (0x2EC, 2), (0x2ED, 0), (0x2EE, 2),
    (0x2EF, 0), (0x300, 1), (0x370, 2), (0x375, 0), (0x376, 2), (0x378, 3), (0x37A, 0), (0x37B, 2),
    (0x37E, 0), (0x37F, 2), (0x380, 3), (0x384, 0), (0x386, 2), (0x387, 1), (0x388, 2), (0x38B, 3),
    (0x38C, 2), (0x38D, 3), (0x38E, 2), (0x3A2, 3), (0x3A3, 2), (0x3F6, 0), (0x3F7, 2), (0x482, 0),
    (0x483, 1), (0x488, 0), (0x48A, 2), (0x530, 3), (0x531, 2), (0x557, 3), (0x559, 2), (0x55A, 0),
    (0x560, 2), (0x589, 0), (0x58B, 3), (0x58D, 0), (0x590, 3), (0x591, 1), (0x5BE, 0), (0x5BF, 1),
    (0x5C0, 0), (0x5C1, 1), (0x5C3, 0), (0x5C4, 1), (0x5C6, 0), (0x5C7, 1), (0x5C8, 3), (0x5D0, 2),
    (0x5EB, 3), (0x5EF, 2), (0x5F3, 0), (0x5F5, 3), (0x600, 0), (0x610, 1), (0x61B, 0), (0x620, 2),
    (0x64B, 1), (0x66A, 0), (0x66E, 2), (0x670, 1), (0x671, 2), (0x6D4, 0), (0x6D5, 2), (0x6D6, 1),
    (0x6DD, 0), (0x6DF, 1), (0x6E5, 2), (0x6E7, 1), (0x6E9, 0), (0x6EA, 1), (0x6EE, 2), (0x6F0, 1),
    (0x6FA, 2), (0x6FD, 0), (0x6FF, 2), (0x700, 0), (0x70E, 3), (0x70F, 0), (0x710, 2), (0x711, 1),
    (0x712, 2), (0x730, 1), (0x74B, 3), (0x74D, 2), (0x7A6, 1), (0x7B1, 2), (0x7B2, 3), (0x7C0, 1),
    (0x7CA, 2), (0x7EB, 1), (0x7F4, 2), (0x7F6, 0), (0x7FA, 2), (0x7FB, 3), (0x7FD, 1), (0x7FE, 0),
    (0x800, 2), (0x816, 1), (0x81A, 2), (0x81B, 1), (0x824, 2), (0x825, 1), (0x828, 2), (0x829, 1),
    (0x82E, 3), (0x830, 0), (0x83F, 3), (0x840, 2), (0x859, 1), (0x85C, 3), (0x85E, 0), (0x85F, 3),
    (0x860, 2), (0x86B, 3), (0x870, 2), (0x888, 0), (0x889, 2), (0x88F, 3), (0x890, 0), (0x892, 3),
    (0x898, 1), (0x8A0, 2), (0x8CA, 1), (0x8E2, 0), (0x8E3, 1), (0x904, 2), (0x93A, 1), (0x93D, 2),
    (0x93E, 1), (0x950, 2), (0x951, 1), (0x958, 2), (0x962, 1), (0x964, 0), (0x966, 1), (0x970, 0),
    (0x971, 2), (0x981, 1), (0x984, 3), (0x985, 2), (0x98D, 3), (0x98F, 2), (0x991, 3), (0x993, 2),
    (0x9A9, 3), (0x9AA, 2), (0x9B1, 3), (0x9B2, 2), (0x9B3, 3), (0x9B6, 2), (0x9BA, 3), (0x9BC, 1),
    (0x9BD, 2), (0x9BE, 1), (0x9C5, 3), (0x9C7, 1), (0x9C9, 3), (0x9CB, 1), (0x9CE, 2), (0x9CF, 3),
    (0x9D7, 1), (0x9D8, 3), (0x9DC, 2), (0x9DE, 3), (0x9DF, 2), (0x9E2, 1), (0x9E4, 3), (0x9E6, 1),
    (0x9F0, 2), (0x9F2, 0), (0x9FC, 2), (0x9FD, 0), (0x9FE, 1), (0x9FF, 3), (0xA01, 1), (0xA04, 3),
    (0xA05, 2), (0xA0B, 3), (0xA0F, 2), (0xA11, 3), (0xA13, 2), (0xA29, 3), (0xA2A, 2), (0xA31, 3),
    (0xA32, 2), (0xA34, 3), (0xA35, 2), (0xA37, 3), (0xA38, 2), (0xA3A, 3), (0xA3C, 1), (0xA3D, 3),
    (0xA3E, 1), (0xA43, 3), (0xA47, 1), (0xA49, 3), (0xA4B, 1), (0xA4E, 3), (0xA51, 1), (0xA52, 3),
    (0xA59, 2), (0xA5D, 3), (0xA5E, 2), (0xA5F, 3), (0xA66, 1), (0xA72, 2), (0xA75, 1), (0xA76, 0),
    (0xA77, 3), (0xA81, 1), (0xA84, 3), (0xA85, 2), (0xA8E, 3), (0xA8F, 2), (0xA92, 3), (0xA93, 2),
    (0xAA9, 3), (0xAAA, 2), (0xAB1, 3), (0xAB2, 2), (0xAB4, 3), (0xAB5, 2), (0xABA, 3), (0xABC, 1),
    (0xABD, 2), (0xABE, 1), (0xAC6, 3), (0xAC7, 1), (0xACA, 3), (0xACB, 1), (0xACE, 3), (0xAD0, 2),
    (0xAD1, 3), (0xAE0, 2), (0xAE2, 1), (0xAE4, 3), (0xAE6, 1), (0xAF0, 0), (0xAF2, 3), (0xAF9, 2),
    (0xAFA, 1), (0xB00, 3), (0xB01, 1), (0xB04, 3), (0xB05, 2), (0xB0D, 3), (0xB0F, 2), (0xB11, 3),
    (0xB13, 2), (0xB29, 3), (0xB2A, 2), (0xB31, 3), (0xB32, 2), (0xB34, 3), (0xB35, 2), (0xB3A, 3),
    (0xB3C, 1), (0xB3D, 2), (0xB3E, 1), (0xB45, 3), (0xB47, 1), (0xB49, 3), (0xB4B, 1), (0xB4E, 3),
    (0xB55, 1), (0xB58, 3), (0xB5C, 2), (0xB5E, 3), (0xB5F, 2), (0xB62, 1), (0xB64, 3), (0xB66, 1),
    (0xB70, 0), (0xB71, 2), (0xB72, 0), (0xB78, 3), (0xB82, 1), (0xB83, 2), (0xB84, 3), (0xB85, 2),
    (0xB8B, 3), (0xB8E, 2), (0xB91, 3), (0xB92, 2), (0xB96, 3), (0xB99, 2), (0xB9B, 3), (0xB9C, 2),
    (0xB9D, 3), (0xB9E, 2), (0xBA0, 3), (0xBA3, 2), (0xBA5, 3), (0xBA8, 2), (0xBAB, 3), (0xBAE, 2),
    (0xBBA, 3), (0xBBE, 1), (0xBC3, 3), (0xBC6, 1), (0xBC9, 3), (0xBCA, 1), (0xBCE, 3), (0xBD0, 2),
    (0xBD1, 3), (0xBD7, 1), (0xBD8, 3), (0xBE6, 1), (0xBF0, 0), (0xBFB, 3), (0xC00, 1), (0xC05, 2),
    (0xC0D, 3), (0xC0E, 2), (0xC11, 3), (0xC12, 2), (0xC29, 3), (0xC2A, 2), (0xC3A, 3), (0xC3C, 1),
    (0xC3D, 2), (0xC3E, 1), (0xC45, 3), (0xC46, 1), (0xC49, 3), (0xC4A, 1), (0xC4E, 3), (0xC55, 1),
    (0xC57, 3), (0xC58, 2), (0xC5B, 3), (0xC5D, 2), (0xC5E, 3), (0xC60, 2), (0xC62, 1), (0xC64, 3),
    (0xC66, 1), (0xC70, 3), (0xC77, 0), (0xC80, 2), (0xC81, 1), (0xC84, 0), (0xC85, 2), (0xC8D, 3),
    (0xC8E, 2), (0xC91, 3), (0xC92, 2), (0xCA9, 3), (0xCAA, 2), (0xCB4, 3), (0xCB5, 2), (0xCBA, 3),
    (0xCBC, 1), (0xCBD, 2), (0xCBE, 1), (0xCC5, 3), (0xCC6, 1), (0xCC9, 3), (0xCCA, 1), (0xCCE, 3),
    (0xCD5, 1), (0xCD7, 3), (0xCDD, 2), (0xCDF, 3), (0xCE0, 2), (0xCE2, 1), (0xCE4, 3), (0xCE6, 1),
    (0xCF0, 3), (0xCF1, 2), (0xCF3, 1), (0xCF4, 3), (0xD00, 1), (0xD04, 2), (0xD0D, 3), (0xD0E, 2),
    (0xD11, 3), (0xD12, 2), (0xD3B, 1), (0xD3D, 2), (0xD3E, 1), (0xD45, 3), (0xD46, 1), (0xD49, 3),
    (0xD4A, 1), (0xD4E, 2), (0xD4F, 0), (0xD50, 3), (0xD54, 2), (0xD57, 1), (0xD58, 0), (0xD5F, 2),
    (0xD62, 1), (0xD64, 3), (0xD66, 1), (0xD70, 0), (0xD7A, 2), (0xD80, 3), (0xD81, 1), (0xD84, 3),
    (0xD85, 2), (0xD97, 3), (0xD9A, 2), (0xDB2, 3), (0xDB3, 2), (0xDBC, 3), (0xDBD, 2), (0xDBE, 3),
    (0xDC0, 2), (0xDC7, 3), (0xDCA, 1), (0xDCB, 3), (0xDCF, 1), (0xDD5, 3), (0xDD6, 1), (0xDD7, 3),
    (0xDD8, 1), (0xDE0, 3), (0xDE6, 1), (0xDF0, 3), (0xDF2, 1), (0xDF4, 0), (0xDF5, 3), (0xE01, 2),
    (0xE31, 1), (0xE32, 2), (0xE33, 1), (0xE3B, 3), (0xE3F, 0), (0xE40, 2), (0xE47, 1), (0xE4F, 0),
    (0xE50, 1), (0xE5A, 0), (0xE5C, 3), (0xE81, 2), (0xE83, 3), (0xE84, 2), (0xE85, 3), (0xE86, 2),
    (0xE8B, 3), (0xE8C, 2), (0xEA4, 3), (0xEA5, 2), (0xEA6, 3), (0xEA7, 2), (0xEB1, 1), (0xEB2, 2),
    (0xEB3, 1), (0xEBD, 2), (0xEBE, 3), (0xEC0, 2), (0xEC5, 3), (0xEC6, 2), (0xEC7, 3), (0xEC8, 1),
    (0xECF, 3), (0xED0, 1), (0xEDA, 3), (0xEDC, 2), (0xEE0, 3), (0xF00, 2), (0xF01, 0), (0xF18, 1),
    (0xF1A, 0), (0xF20, 1), (0xF2A, 0), (0xF35, 1), (0xF36, 0), (0xF37, 1), (0xF38, 0), (0xF39, 1),
    (0xF3A, 0), (0xF3E, 1), (0xF40, 2), (0xF48, 3), (0xF49, 2), (0xF6D, 3), (0xF71, 1), (0xF85, 0),
    (0xF86, 1), (0xF88, 2), (0xF8D, 1), (0xF98, 3), (0xF99, 1), (0xFBD, 3), (0xFBE, 0), (0xFC6, 1),
    (0xFC7, 0), (0xFCD, 3), (0xFCE, 0), (0xFDB, 3), (0x1000, 2), (0x102B, 1), (0x103F, 2), (0x1040, 1),
    (0x104A, 0), (0x1050, 2), (0x1056, 1), (0x105A, 2), (0x105E, 1), (0x1061, 2), (0x1062, 1), (0x1065, 2),
    (0x1067, 1), (0x106E, 2), (0x1071, 1), (0x1075, 2), (0x1082, 1), (0x108E, 2), (0x108F, 1), (0x109E, 0),
    (0x10A0, 2), (0x10C6, 3), (0x10C7, 2), (0x10C8, 3), (0x10CD, 2), (0x10CE, 3), (0x10D0, 2), (0x10FB, 0),
    (0x10FC, 2), (0x1249, 3), (0x124A, 2), (0x124E, 3), (0x1250, 2), (0x1257, 3), (0x1258, 2), (0x1259, 3),
    (0x125A, 2), (0x125E, 3), (0x1260, 2), (0x1289, 3), (0x128A, 2), (0x128E, 3), (0x1290, 2), (0x12B1, 3),
    (0x12B2, 2), (0x12B6, 3), (0x12B8, 2), (0x12BF, 3), (0x12C0, 2), (0x12C1, 3), (0x12C2, 2), (0x12C6, 3),
    (0x12C8, 2), (0x12D7, 3), (0x12D8, 2), (0x1311, 3), (0x1312, 2), (0x1316, 3), (0x1318, 2), (0x135B, 3),
    (0x135D, 1), (0x1360, 0), (0x1369, 1), (0x1372, 0), (0x137D, 3), (0x1380, 2), (0x1390, 0), (0x139A, 3),
    (0x13A0, 2), (0x13F6, 3), (0x13F8, 2), (0x13FE, 3), (0x1400, 0), (0x1401, 2), (0x166D, 0), (0x166F, 2),
    (0x1680, 0), (0x1681, 2), (0x169B, 0), (0x169D, 3), (0x16A0, 2), (0x16EB, 0), (0x16EE, 2), (0x16F9, 3),
    (0x1700, 2), (0x1712, 1), (0x1716, 3), (0x171F, 2), (0x1732, 1), (0x1735, 0), (0x1737, 3), (0x1740, 2),
    (0x1752, 1), (0x1754, 3), (0x1760, 2), (0x176D, 3), (0x176E, 2), (0x1771, 3), (0x1772, 1), (0x1774, 3),
    (0x1780, 2), (0x17B4, 1), (0x17D4, 0), (0x17D7, 2), (0x17D8, 0), (0x17DC, 2), (0x17DD, 1), (0x17DE, 3),
    (0x17E0, 1), (0x17EA, 3), (0x17F0, 0), (0x17FA, 3), (0x1800, 0), (0x180B, 1), (0x180E, 0), (0x180F, 1),
    (0x181A, 3), (0x1820, 2), (0x1879, 3), (0x1880, 2), (0x18A9, 1), (0x18AA, 2), (0x18AB, 3), (0x18B0, 2),
    (0x18F6, 3), (0x1900, 2), (0x191F, 3), (0x1920, 1), (0x192C, 3), (0x1930, 1), (0x193C, 3), (0x1940, 0),
    (0x1941, 3), (0x1944, 0), (0x1946, 1), (0x1950, 2), (0x196E, 3), (0x1970, 2), (0x1975, 3), (0x1980, 2),
    (0x19AC, 3), (0x19B0, 2), (0x19CA, 3), (0x19D0, 1), (0x19DB, 3), (0x19DE, 0), (0x1A00, 2), (0x1A17, 1),
    (0x1A1C, 3), (0x1A1E, 0), (0x1A20, 2), (0x1A55, 1), (0x1A5F, 3), (0x1A60, 1), (0x1A7D, 3), (0x1A7F, 1),
    (0x1A8A, 3), (0x1A90, 1), (0x1A9A, 3), (0x1AA0, 0), (0x1AA7, 2), (0x1AA8, 0), (0x1AAE, 3), (0x1AB0, 1),
    (0x1ABE, 0), (0x1ABF, 1), (0x1ACF, 3), (0x1B00, 1), (0x1B05, 2), (0x1B34, 1), (0x1B45, 2), (0x1B4D, 3),
    (0x1B50, 1), (0x1B5A, 0), (0x1B6B, 1), (0x1B74, 0), (0x1B7F, 3), (0x1B80, 1), (0x1B83, 2), (0x1BA1, 1),
    (0x1BAE, 2), (0x1BB0, 1), (0x1BBA, 2), (0x1BE6, 1), (0x1BF4, 3), (0x1BFC, 0), (0x1C00, 2), (0x1C24, 1),
    (0x1C38, 3), (0x1C3B, 0), (0x1C40, 1), (0x1C4A, 3), (0x1C4D, 2), (0x1C50, 1), (0x1C5A, 2), (0x1C7E, 0),
    (0x1C80, 2), (0x1C89, 3), (0x1C90, 2), (0x1CBB, 3), (0x1CBD, 2), (0x1CC0, 0), (0x1CC8, 3), (0x1CD0, 1),
    (0x1CD3, 0), (0x1CD4, 1), (0x1CE9, 2), (0x1CED, 1), (0x1CEE, 2), (0x1CF4, 1), (0x1CF5, 2), (0x1CF7, 1),
    (0x1CFA, 2), (0x1CFB, 3), (0x1D00, 2), (0x1DC0, 1), (0x1E00, 2), (0x1F16, 3), (0x1F18, 2), (0x1F1E, 3),
    (0x1F20, 2), (0x1F46, 3), (0x1F48, 2), (0x1F4E, 3), (0x1F50, 2), (0x1F58, 3), (0x1F59, 2), (0x1F5A, 3),
    (0x1F5B, 2), (0x1F5C, 3), (0x1F5D, 2), (0x1F5E, 3), (0x1F5F, 2), (0x1F7E, 3), (0x1F80, 2), (0x1FB5, 3),
    (0x1FB6, 2), (0x1FBD, 0), (0x1FBE, 2), (0x1FBF, 0), (0x1FC2, 2), (0x1FC5, 3), (0x1FC6, 2), (0x1FCD, 0),
    (0x1FD0, 2), (0x1FD4, 3), (0x1FD6, 2), (0x1FDC, 3), (0x1FDD, 0), (0x1FE0, 2), (0x1FED, 0), (0x1FF0, 3),
    (0x1FF2, 2), (0x1FF5, 3), (0x1FF6, 2), (0x1FFD, 0), (0x1FFF, 3), (0x2000, 0), (0x200C, 3), (0x200E, 0),
    (0x203F, 1), (0x2041, 0), (0x2054, 1), (0x2055, 0), (0x2065, 3), (0x2066, 0), (0x2071, 2), (0x2072, 3),
    (0x2074, 0), (0x207F, 2), (0x2080, 0), (0x208F, 3), (0x2090, 2), (0x209D, 3), (0x20A0, 0), (0x20C1, 3),
    (0x20D0, 1), (0x20DD, 0), (0x20E1, 1), (0x20E2, 0), (0x20E5, 1), (0x20F1, 3), (0x2100, 0), (0x2102, 2),
    (0x2103, 0), (0x2107, 2), (0x2108, 0), (0x210A, 2), (0x2114, 0), (0x2115, 2), (0x2116, 0), (0x2118, 2),
    (0x211E, 0), (0x2124, 2), (0x2125, 0), (0x2126, 2), (0x2127, 0), (0x2128, 2), (0x2129, 0), (0x212A, 2),
    (0x213A, 0), (0x213C, 2), (0x2140, 0), (0x2145, 2), (0x214A, 0), (0x214E, 2), (0x214F, 0), (0x2160, 2),
    (0x2189, 0), (0x218C, 3), (0x2190, 0), (0x2427, 3), (0x2440, 0), (0x244B, 3), (0x2460, 0), (0x2B74, 3),
    (0x2B76, 0), (0x2B96, 3), (0x2B97, 0), (0x2C00, 2), (0x2CE5, 0), (0x2CEB, 2), (0x2CEF, 1), (0x2CF2, 2),
    (0x2CF4, 3), (0x2CF9, 0), (0x2D00, 2), (0x2D26, 3), (0x2D27, 2), (0x2D28, 3), (0x2D2D, 2), (0x2D2E, 3),
    (0x2D30, 2), (0x2D68, 3), (0x2D6F, 2), (0x2D70, 0), (0x2D71, 3), (0x2D7F, 1), (0x2D80, 2), (0x2D97, 3),
    (0x2DA0, 2), (0x2DA7, 3), (0x2DA8, 2), (0x2DAF, 3), (0x2DB0, 2), (0x2DB7, 3), (0x2DB8, 2), (0x2DBF, 3),
    (0x2DC0, 2), (0x2DC7, 3), (0x2DC8, 2), (0x2DCF, 3), (0x2DD0, 2), (0x2DD7, 3), (0x2DD8, 2), (0x2DDF, 3),
    (0x2DE0, 1), (0x2E00, 0), (0x2E5E, 3), (0x2E80, 0), (0x2E9A, 3), (0x2E9B, 0), (0x2EF4, 3), (0x2F00, 0),
    (0x2FD6, 3), (0x2FF0, 0), (0x2FFC, 3), (0x3000, 0), (0x3005, 2), (0x3008, 0), (0x3021, 2), (0x302A, 1),
    (0x3030, 0), (0x3031, 2), (0x3036, 0), (0x3038, 2), (0x303D, 0), (0x3040, 3), (0x3041, 2), (0x3097, 3),
    (0x3099, 1), (0x309B, 0), (0x309D, 2), (0x30A0, 0), (0x30A1, 2), (0x30FB, 3), (0x30FC, 2), (0x3100, 3),
    (0x3105, 2), (0x3130, 3), (0x3131, 2), (0x318F, 3), (0x3190, 0), (0x31A0, 2), (0x31C0, 0), (0x31E4, 3),
    (0x31F0, 2), (0x3200, 0), (0x321F, 3), (0x3220, 0), (0x3400, 2), (0x4DC0, 0), (0x4E00, 2), (0xA48D, 3),
    (0xA490, 0), (0xA4C7, 3), (0xA4D0, 2), (0xA4FE, 0), (0xA500, 2), (0xA60D, 0), (0xA610, 2), (0xA620, 1),
    (0xA62A, 2), (0xA62C, 3), (0xA640, 2), (0xA66F, 1), (0xA670, 0), (0xA674, 1), (0xA67E, 0), (0xA67F, 2),
    (0xA69E, 1), (0xA6A0, 2), (0xA6F0, 1), (0xA6F2, 0), (0xA6F8, 3), (0xA700, 0), (0xA717, 2), (0xA720, 0),
    (0xA722, 2), (0xA789, 0), (0xA78B, 2), (0xA7CB, 3), (0xA7D0, 2), (0xA7D2, 3), (0xA7D3, 2), (0xA7D4, 3),
    (0xA7D5, 2), (0xA7DA, 3), (0xA7F2, 2), (0xA802, 1), (0xA803, 2), (0xA806, 1), (0xA807, 2), (0xA80B, 1),
    (0xA80C, 2), (0xA823, 1), (0xA828, 0), (0xA82C, 1), (0xA82D, 3), (0xA830, 0), (0xA83A, 3), (0xA840, 2),
    (0xA874, 0), (0xA878, 3), (0xA880, 1), (0xA882, 2), (0xA8B4, 1), (0xA8C6, 3), (0xA8CE, 0), (0xA8D0, 1),
    (0xA8DA, 3), (0xA8E0, 1), (0xA8F2, 2), (0xA8F8, 0), (0xA8FB, 2), (0xA8FC, 0), (0xA8FD, 2), (0xA8FF, 1),
    (0xA90A, 2), (0xA926, 1), (0xA92E, 0), (0xA930, 2), (0xA947, 1), (0xA954, 3), (0xA95F, 0), (0xA960, 2),
    (0xA97D, 3), (0xA980, 1), (0xA984, 2), (0xA9B3, 1), (0xA9C1, 0), (0xA9CE, 3), (0xA9CF, 2), (0xA9D0, 1),
    (0xA9DA, 3), (0xA9DE, 0), (0xA9E0, 2), (0xA9E5, 1), (0xA9E6, 2), (0xA9F0, 1), (0xA9FA, 2), (0xA9FF, 3),
    (0xAA00, 2), (0xAA29, 1), (0xAA37, 3), (0xAA40, 2), (0xAA43, 1), (0xAA44, 2), (0xAA4C, 1), (0xAA4E, 3),
    (0xAA50, 1), (0xAA5A, 3), (0xAA5C, 0), (0xAA60, 2), (0xAA77, 0), (0xAA7A, 2), (0xAA7B, 1), (0xAA7E, 2),
    (0xAAB0, 1), (0xAAB1, 2), (0xAAB2, 1), (0xAAB5, 2), (0xAAB7, 1), (0xAAB9, 2), (0xAABE, 1), (0xAAC0, 2),
    (0xAAC1, 1), (0xAAC2, 2), (0xAAC3, 3), (0xAADB, 2), (0xAADE, 0), (0xAAE0, 2), (0xAAEB, 1), (0xAAF0, 0),
    (0xAAF2, 2), (0xAAF5, 1), (0xAAF7, 3), (0xAB01, 2), (0xAB07, 3), (0xAB09, 2), (0xAB0F, 3), (0xAB11, 2),
    (0xAB17, 3), (0xAB20, 2), (0xAB27, 3), (0xAB28, 2), (0xAB2F, 3), (0xAB30, 2), (0xAB5B, 0), (0xAB5C, 2),
    (0xAB6A, 0), (0xAB6C, 3), (0xAB70, 2), (0xABE3, 1), (0xABEB, 0), (0xABEC, 1), (0xABEE, 3), (0xABF0, 1),
    (0xABFA, 3), (0xAC00, 2), (0xD7A4, 3), (0xD7B0, 2), (0xD7C7, 3), (0xD7CB, 2), (0xD7FC, 3), (0xE000, 0),
    (0xF900, 2), (0xFA6E, 3), (0xFA70, 2), (0xFADA, 3), (0xFB00, 2), (0xFB07, 3), (0xFB13, 2), (0xFB18, 3),
    (0xFB1D, 2), (0xFB1E, 1), (0xFB1F, 2), (0xFB29, 0), (0xFB2A, 2), (0xFB37, 3), (0xFB38, 2), (0xFB3D, 3),
    (0xFB3E, 2), (0xFB3F, 3), (0xFB40, 2), (0xFB42, 3), (0xFB43, 2), (0xFB45, 3), (0xFB46, 2), (0xFBB2, 0),
    (0xFBC3, 3), (0xFBD3, 2), (0xFC5E, 0), (0xFC64, 2), (0xFD3E, 0), (0xFD50, 2), (0xFD90, 3), (0xFD92, 2),
    (0xFDC8, 3), (0xFDCF, 0), (0xFDD0, 3), (0xFDF0, 2), (0xFDFA, 0), (0xFE00, 1), (0xFE10, 0), (0xFE1A, 3),
    (0xFE20, 1), (0xFE30, 0), (0xFE33, 1), (0xFE35, 0), (0xFE4D, 1), (0xFE50, 0), (0xFE53, 3), (0xFE54, 0),
    (0xFE67, 3), (0xFE68, 0), (0xFE6C, 3), (0xFE70, 0), (0xFE71, 2), (0xFE72, 0), (0xFE73, 2), (0xFE74, 0),
    (0xFE75, 3), (0xFE76, 0), (0xFE77, 2), (0xFE78, 0), (0xFE79, 2), (0xFE7A, 0), (0xFE7B, 2), (0xFE7C, 0),
    (0xFE7D, 2), (0xFE7E, 0), (0xFE7F, 2), (0xFEFD, 3), (0xFEFF, 0), (0xFF00, 3), (0xFF01, 0), (0xFF10, 1),
    (0xFF1A, 0), (0xFF21, 2), (0xFF3B, 0), (0xFF3F, 1), (0xFF40, 0), (0xFF41, 2), (0xFF5B, 0), (0xFF65, 3),
    (0xFF66, 2), (0xFF9E, 1), (0xFFA0, 2), (0xFFBF, 3), (0xFFC2, 2), (0xFFC8, 3), (0xFFCA, 2), (0xFFD0, 3),
    (0xFFD2, 2), (0xFFD8, 3), (0xFFDA, 2), (0xFFDD, 3), (0xFFE0, 0), (0xFFE7, 3), (0xFFE8, 0), (0xFFEF, 3),
    (0xFFF9, 0), (0xFFFE, 3), (0x10000, 2), (0x1000C, 3), (0x1000D, 2), (0x10027, 3), (0x10028, 2), (0x1003B, 3),
    (0x1003C, 2), (0x1003E, 3), (0x1003F, 2), (0x1004E, 3), (0x10050, 2), (0x1005E, 3), (0x10080, 2), (0x100FB, 3),
    (0x10100, 0), (0x10103, 3), (0x10107, 0), (0x10134, 3), (0x10137, 0), (0x10140, 2), (0x10175, 0), (0x1018F, 3),
    (0x10190, 0), (0x1019D, 3), (0x101A0, 0), (0x101A1, 3), (0x101D0, 0), (0x101FD, 1), (0x101FE, 3), (0x10280, 2),
    (0x1029D, 3), (0x102A0, 2), (0x102D1, 3), (0x102E0, 1), (0x102E1, 0), (0x102FC, 3), (0x10300, 2), (0x10320, 0),
    (0x10324, 3), (0x1032D, 2), (0x1034B, 3), (0x10350, 2), (0x10376, 1), (0x1037B, 3), (0x10380, 2), (0x1039E, 3),
    (0x1039F, 0), (0x103A0, 2), (0x103C4, 3), (0x103C8, 2), (0x103D0, 0), (0x103D1, 2), (0x103D6, 3), (0x10400, 2),
    (0x1049E, 3), (0x104A0, 1), (0x104AA, 3), (0x104B0, 2), (0x104D4, 3), (0x104D8, 2), (0x104FC, 3), (0x10500, 2),
    (0x10528, 3), (0x10530, 2), (0x10564, 3), (0x1056F, 0), (0x10570, 2), (0x1057B, 3), (0x1057C, 2), (0x1058B, 3),
    (0x1058C, 2), (0x10593, 3), (0x10594, 2), (0x10596, 3), (0x10597, 2), (0x105A2, 3), (0x105A3, 2), (0x105B2, 3),
    (0x105B3, 2), (0x105BA, 3), (0x105BB, 2), (0x105BD, 3), (0x10600, 2), (0x10737, 3), (0x10740, 2), (0x10756, 3),
    (0x10760, 2), (0x10768, 3), (0x10780, 2), (0x10786, 3), (0x10787, 2), (0x107B1, 3), (0x107B2, 2), (0x107BB, 3),
    (0x10800, 2), (0x10806, 3), (0x10808, 2), (0x10809, 3), (0x1080A, 2), (0x10836, 3), (0x10837, 2), (0x10839, 3),
    (0x1083C, 2), (0x1083D, 3), (0x1083F, 2), (0x10856, 3), (0x10857, 0), (0x10860, 2), (0x10877, 0), (0x10880, 2),
    (0x1089F, 3), (0x108A7, 0), (0x108B0, 3), (0x108E0, 2), (0x108F3, 3), (0x108F4, 2), (0x108F6, 3), (0x108FB, 0),
    (0x10900, 2), (0x10916, 0), (0x1091C, 3), (0x1091F, 0), (0x10920, 2), (0x1093A, 3), (0x1093F, 0), (0x10940, 3),
    (0x10980, 2), (0x109B8, 3), (0x109BC, 0), (0x109BE, 2), (0x109C0, 0), (0x109D0, 3), (0x109D2, 0), (0x10A00, 2),
    (0x10A01, 1), (0x10A04, 3), (0x10A05, 1), (0x10A07, 3), (0x10A0C, 1), (0x10A10, 2), (0x10A14, 3), (0x10A15, 2),
    (0x10A18, 3), (0x10A19, 2), (0x10A36, 3), (0x10A38, 1), (0x10A3B, 3), (0x10A3F, 1), (0x10A40, 0), (0x10A49, 3),
    (0x10A50, 0), (0x10A59, 3), (0x10A60, 2), (0x10A7D, 0), (0x10A80, 2), (0x10A9D, 0), (0x10AA0, 3), (0x10AC0, 2),
    (0x10AC8, 0), (0x10AC9, 2), (0x10AE5, 1), (0x10AE7, 3), (0x10AEB, 0), (0x10AF7, 3), (0x10B00, 2), (0x10B36, 3),
    (0x10B39, 0), (0x10B40, 2), (0x10B56, 3), (0x10B58, 0), (0x10B60, 2), (0x10B73, 3), (0x10B78, 0), (0x10B80, 2),
    (0x10B92, 3), (0x10B99, 0), (0x10B9D, 3), (0x10BA9, 0), (0x10BB0, 3), (0x10C00, 2), (0x10C49, 3), (0x10C80, 2),
    (0x10CB3, 3), (0x10CC0, 2), (0x10CF3, 3), (0x10CFA, 0), (0x10D00, 2), (0x10D24, 1), (0x10D28, 3), (0x10D30, 1),
    (0x10D3A, 3), (0x10E60, 0), (0x10E7F, 3), (0x10E80, 2), (0x10EAA, 3), (0x10EAB, 1), (0x10EAD, 0), (0x10EAE, 3),
    (0x10EB0, 2), (0x10EB2, 3), (0x10EFD, 1), (0x10F00, 2), (0x10F1D, 0), (0x10F27, 2), (0x10F28, 3), (0x10F30, 2),
    (0x10F46, 1), (0x10F51, 0), (0x10F5A, 3), (0x10F70, 2), (0x10F82, 1), (0x10F86, 0), (0x10F8A, 3), (0x10FB0, 2),
    (0x10FC5, 0), (0x10FCC, 3), (0x10FE0, 2), (0x10FF7, 3), (0x11000, 1), (0x11003, 2), (0x11038, 1), (0x11047, 0),
    (0x1104E, 3), (0x11052, 0), (0x11066, 1), (0x11071, 2), (0x11073, 1), (0x11075, 2), (0x11076, 3), (0x1107F, 1),
    (0x11083, 2), (0x110B0, 1), (0x110BB, 0), (0x110C2, 1), (0x110C3, 3), (0x110CD, 0), (0x110CE, 3), (0x110D0, 2),
    (0x110E9, 3), (0x110F0, 1), (0x110FA, 3), (0x11100, 1), (0x11103, 2), (0x11127, 1), (0x11135, 3), (0x11136, 1),
    (0x11140, 0), (0x11144, 2), (0x11145, 1), (0x11147, 2), (0x11148, 3), (0x11150, 2), (0x11173, 1), (0x11174, 0),
    (0x11176, 2), (0x11177, 3), (0x11180, 1), (0x11183, 2), (0x111B3, 1), (0x111C1, 2), (0x111C5, 0), (0x111C9, 1),
    (0x111CD, 0), (0x111CE, 1), (0x111DA, 2), (0x111DB, 0), (0x111DC, 2), (0x111DD, 0), (0x111E0, 3), (0x111E1, 0),
    (0x111F5, 3), (0x11200, 2), (0x11212, 3), (0x11213, 2), (0x1122C, 1), (0x11238, 0), (0x1123E, 1), (0x1123F, 2),
    (0x11241, 1), (0x11242, 3), (0x11280, 2), (0x11287, 3), (0x11288, 2), (0x11289, 3), (0x1128A, 2), (0x1128E, 3),
    (0x1128F, 2), (0x1129E, 3), (0x1129F, 2), (0x112A9, 0), (0x112AA, 3), (0x112B0, 2), (0x112DF, 1), (0x112EB, 3),
    (0x112F0, 1), (0x112FA, 3), (0x11300, 1), (0x11304, 3), (0x11305, 2), (0x1130D, 3), (0x1130F, 2), (0x11311, 3),
    (0x11313, 2), (0x11329, 3), (0x1132A, 2), (0x11331, 3), (0x11332, 2), (0x11334, 3), (0x11335, 2), (0x1133A, 3),
    (0x1133B, 1), (0x1133D, 2), (0x1133E, 1), (0x11345, 3), (0x11347, 1), (0x11349, 3), (0x1134B, 1), (0x1134E, 3),
    (0x11350, 2), (0x11351, 3), (0x11357, 1), (0x11358, 3), (0x1135D, 2), (0x11362, 1), (0x11364, 3), (0x11366, 1),
    (0x1136D, 3), (0x11370, 1), (0x11375, 3), (0x11400, 2), (0x11435, 1), (0x11447, 2), (0x1144B, 0), (0x11450, 1),
    (0x1145A, 0), (0x1145C, 3), (0x1145D, 0), (0x1145E, 1), (0x1145F, 2), (0x11462, 3), (0x11480, 2), (0x114B0, 1),
    (0x114C4, 2), (0x114C6, 0), (0x114C7, 2), (0x114C8, 3), (0x114D0, 1), (0x114DA, 3), (0x11580, 2), (0x115AF, 1),
    (0x115B6, 3), (0x115B8, 1), (0x115C1, 0), (0x115D8, 2), (0x115DC, 1), (0x115DE, 3), (0x11600, 2), (0x11630, 1),
    (0x11641, 0), (0x11644, 2), (0x11645, 3), (0x11650, 1), (0x1165A, 3), (0x11660, 0), (0x1166D, 3), (0x11680, 2),
    (0x116AB, 1), (0x116B8, 2), (0x116B9, 0), (0x116BA, 3), (0x116C0, 1), (0x116CA, 3), (0x11700, 2), (0x1171B, 3),
    (0x1171D, 1), (0x1172C, 3), (0x11730, 1), (0x1173A, 0), (0x11740, 2), (0x11747, 3), (0x11800, 2), (0x1182C, 1),
    (0x1183B, 0), (0x1183C, 3), (0x118A0, 2), (0x118E0, 1), (0x118EA, 0), (0x118F3, 3), (0x118FF, 2), (0x11907, 3),
    (0x11909, 2), (0x1190A, 3), (0x1190C, 2), (0x11914, 3), (0x11915, 2), (0x11917, 3), (0x11918, 2), (0x11930, 1),
    (0x11936, 3), (0x11937, 1), (0x11939, 3), (0x1193B, 1), (0x1193F, 2), (0x11940, 1), (0x11941, 2), (0x11942, 1),
    (0x11944, 0), (0x11947, 3), (0x11950, 1), (0x1195A, 3), (0x119A0, 2), (0x119A8, 3), (0x119AA, 2), (0x119D1, 1),
    (0x119D8, 3), (0x119DA, 1), (0x119E1, 2), (0x119E2, 0), (0x119E3, 2), (0x119E4, 1), (0x119E5, 3), (0x11A00, 2),
    (0x11A01, 1), (0x11A0B, 2), (0x11A33, 1), (0x11A3A, 2), (0x11A3B, 1), (0x11A3F, 0), (0x11A47, 1), (0x11A48, 3),
    (0x11A50, 2), (0x11A51, 1), (0x11A5C, 2), (0x11A8A, 1), (0x11A9A, 0), (0x11A9D, 2), (0x11A9E, 0), (0x11AA3, 3),
    (0x11AB0, 2), (0x11AF9, 3), (0x11B00, 0), (0x11B0A, 3), (0x11C00, 2), (0x11C09, 3), (0x11C0A, 2), (0x11C2F, 1),
    (0x11C37, 3), (0x11C38, 1), (0x11C40, 2), (0x11C41, 0), (0x11C46, 3), (0x11C50, 1), (0x11C5A, 0), (0x11C6D, 3),
    (0x11C70, 0), (0x11C72, 2), (0x11C90, 3), (0x11C92, 1), (0x11CA8, 3), (0x11CA9, 1), (0x11CB7, 3), (0x11D00, 2),
    (0x11D07, 3), (0x11D08, 2), (0x11D0A, 3), (0x11D0B, 2), (0x11D31, 1), (0x11D37, 3), (0x11D3A, 1), (0x11D3B, 3),
    (0x11D3C, 1), (0x11D3E, 3), (0x11D3F, 1), (0x11D46, 2), (0x11D47, 1), (0x11D48, 3), (0x11D50, 1), (0x11D5A, 3),
    (0x11D60, 2), (0x11D66, 3), (0x11D67, 2), (0x11D69, 3), (0x11D6A, 2), (0x11D8A, 1), (0x11D8F, 3), (0x11D90, 1),
    (0x11D92, 3), (0x11D93, 1), (0x11D98, 2), (0x11D99, 3), (0x11DA0, 1), (0x11DAA, 3), (0x11EE0, 2), (0x11EF3, 1),
    (0x11EF7, 0), (0x11EF9, 3), (0x11F00, 1), (0x11F02, 2), (0x11F03, 1), (0x11F04, 2), (0x11F11, 3), (0x11F12, 2),
    (0x11F34, 1), (0x11F3B, 3), (0x11F3E, 1), (0x11F43, 0), (0x11F50, 1), (0x11F5A, 3), (0x11FB0, 2), (0x11FB1, 3),
    (0x11FC0, 0), (0x11FF2, 3), (0x11FFF, 0), (0x12000, 2), (0x1239A, 3), (0x12400, 2), (0x1246F, 3), (0x12470, 0),
    (0x12475, 3), (0x12480, 2), (0x12544, 3), (0x12F90, 2), (0x12FF1, 0), (0x12FF3, 3), (0x13000, 2), (0x13430, 0),
    (0x13440, 1), (0x13441, 2), (0x13447, 1), (0x13456, 3), (0x14400, 2), (0x14647, 3), (0x16800, 2), (0x16A39, 3),
    (0x16A40, 2), (0x16A5F, 3), (0x16A60, 1), (0x16A6A, 3), (0x16A6E, 0), (0x16A70, 2), (0x16ABF, 3), (0x16AC0, 1),
    (0x16ACA, 3), (0x16AD0, 2), (0x16AEE, 3), (0x16AF0, 1), (0x16AF5, 0), (0x16AF6, 3), (0x16B00, 2), (0x16B30, 1),
    (0x16B37, 0), (0x16B40, 2), (0x16B44, 0), (0x16B46, 3), (0x16B50, 1), (0x16B5A, 3), (0x16B5B, 0), (0x16B62, 3),
    (0x16B63, 2), (0x16B78, 3), (0x16B7D, 2), (0x16B90, 3), (0x16E40, 2), (0x16E80, 0), (0x16E9B, 3), (0x16F00, 2),
    (0x16F4B, 3), (0x16F4F, 1), (0x16F50, 2), (0x16F51, 1), (0x16F88, 3), (0x16F8F, 1), (0x16F93, 2), (0x16FA0, 3),
    (0x16FE0, 2), (0x16FE2, 0), (0x16FE3, 2), (0x16FE4, 1), (0x16FE5, 3), (0x16FF0, 1), (0x16FF2, 3), (0x17000, 2),
    (0x187F8, 3), (0x18800, 2), (0x18CD6, 3), (0x18D00, 2), (0x18D09, 3), (0x1AFF0, 2), (0x1AFF4, 3), (0x1AFF5, 2),
    (0x1AFFC, 3), (0x1AFFD, 2), (0x1AFFF, 3), (0x1B000, 2), (0x1B123, 3), (0x1B132, 2), (0x1B133, 3), (0x1B150, 2),
    (0x1B153, 3), (0x1B155, 2), (0x1B156, 3), (0x1B164, 2), (0x1B168, 3), (0x1B170, 2), (0x1B2FC, 3), (0x1BC00, 2),
    (0x1BC6B, 3), (0x1BC70, 2), (0x1BC7D, 3), (0x1BC80, 2), (0x1BC89, 3), (0x1BC90, 2), (0x1BC9A, 3), (0x1BC9C, 0),
    (0x1BC9D, 1), (0x1BC9F, 0), (0x1BCA4, 3), (0x1CF00, 1), (0x1CF2E, 3), (0x1CF30, 1), (0x1CF47, 3), (0x1CF50, 0),
    (0x1CFC4, 3), (0x1D000, 0), (0x1D0F6, 3), (0x1D100, 0), (0x1D127, 3), (0x1D129, 0), (0x1D165, 1), (0x1D16A, 0),
    (0x1D16D, 1), (0x1D173, 0), (0x1D17B, 1), (0x1D183, 0), (0x1D185, 1), (0x1D18C, 0), (0x1D1AA, 1), (0x1D1AE, 0),
    (0x1D1EB, 3), (0x1D200, 0), (0x1D242, 1), (0x1D245, 0), (0x1D246, 3), (0x1D2C0, 0), (0x1D2D4, 3), (0x1D2E0, 0),
    (0x1D2F4, 3), (0x1D300, 0), (0x1D357, 3), (0x1D360, 0), (0x1D379, 3), (0x1D400, 2), (0x1D455, 3), (0x1D456, 2),
    (0x1D49D, 3), (0x1D49E, 2), (0x1D4A0, 3), (0x1D4A2, 2), (0x1D4A3, 3), (0x1D4A5, 2), (0x1D4A7, 3), (0x1D4A9, 2),
    (0x1D4AD, 3), (0x1D4AE, 2), (0x1D4BA, 3), (0x1D4BB, 2), (0x1D4BC, 3), (0x1D4BD, 2), (0x1D4C4, 3), (0x1D4C5, 2),
    (0x1D506, 3), (0x1D507, 2), (0x1D50B, 3), (0x1D50D, 2), (0x1D515, 3), (0x1D516, 2), (0x1D51D, 3), (0x1D51E, 2),
    (0x1D53A, 3), (0x1D53B, 2), (0x1D53F, 3), (0x1D540, 2), (0x1D545, 3), (0x1D546, 2), (0x1D547, 3), (0x1D54A, 2),
    (0x1D551, 3), (0x1D552, 2), (0x1D6A6, 3), (0x1D6A8, 2), (0x1D6C1, 0), (0x1D6C2, 2), (0x1D6DB, 0), (0x1D6DC, 2),
    (0x1D6FB, 0), (0x1D6FC, 2), (0x1D715, 0), (0x1D716, 2), (0x1D735, 0), (0x1D736, 2), (0x1D74F, 0), (0x1D750, 2),
    (0x1D76F, 0), (0x1D770, 2), (0x1D789, 0), (0x1D78A, 2), (0x1D7A9, 0), (0x1D7AA, 2), (0x1D7C3, 0), (0x1D7C4, 2),
    (0x1D7CC, 3), (0x1D7CE, 1), (0x1D800, 0), (0x1DA00, 1), (0x1DA37, 0), (0x1DA3B, 1), (0x1DA6D, 0), (0x1DA75, 1),
    (0x1DA76, 0), (0x1DA84, 1), (0x1DA85, 0), (0x1DA8C, 3), (0x1DA9B, 1), (0x1DAA0, 3), (0x1DAA1, 1), (0x1DAB0, 3),
    (0x1DF00, 2), (0x1DF1F, 3), (0x1DF25, 2), (0x1DF2B, 3), (0x1E000, 1), (0x1E007, 3), (0x1E008, 1), (0x1E019, 3),
    (0x1E01B, 1), (0x1E022, 3), (0x1E023, 1), (0x1E025, 3), (0x1E026, 1), (0x1E02B, 3), (0x1E030, 2), (0x1E06E, 3),
    (0x1E08F, 1), (0x1E090, 3), (0x1E100, 2), (0x1E12D, 3), (0x1E130, 1), (0x1E137, 2), (0x1E13E, 3), (0x1E140, 1),
    (0x1E14A, 3), (0x1E14E, 2), (0x1E14F, 0), (0x1E150, 3), (0x1E290, 2), (0x1E2AE, 1), (0x1E2AF, 3), (0x1E2C0, 2),
    (0x1E2EC, 1), (0x1E2FA, 3), (0x1E2FF, 0), (0x1E300, 3), (0x1E4D0, 2), (0x1E4EC, 1), (0x1E4FA, 3), (0x1E7E0, 2),
    (0x1E7E7, 3), (0x1E7E8, 2), (0x1E7EC, 3), (0x1E7ED, 2), (0x1E7EF, 3), (0x1E7F0, 2), (0x1E7FF, 3), (0x1E800, 2),
    (0x1E8C5, 3), (0x1E8C7, 0), (0x1E8D0, 1), (0x1E8D7, 3), (0x1E900, 2), (0x1E944, 1), (0x1E94B, 2), (0x1E94C, 3),
    (0x1E950, 1), (0x1E95A, 3), (0x1E95E, 0), (0x1E960, 3), (0x1EC71, 0), (0x1ECB5, 3), (0x1ED01, 0), (0x1ED3E, 3),
    (0x1EE00, 2), (0x1EE04, 3), (0x1EE05, 2), (0x1EE20, 3), (0x1EE21, 2), (0x1EE23, 3), (0x1EE24, 2), (0x1EE25, 3),
    (0x1EE27, 2), (0x1EE28, 3), (0x1EE29, 2), (0x1EE33, 3), (0x1EE34, 2), (0x1EE38, 3), (0x1EE39, 2), (0x1EE3A, 3),
    (0x1EE3B, 2), (0x1EE3C, 3), (0x1EE42, 2), (0x1EE43, 3), (0x1EE47, 2), (0x1EE48, 3), (0x1EE49, 2), (0x1EE4A, 3),
    (0x1EE4B, 2), (0x1EE4C, 3), (0x1EE4D, 2), (0x1EE50, 3), (0x1EE51, 2), (0x1EE53, 3), (0x1EE54, 2), (0x1EE55, 3),
    (0x1EE57, 2), (0x1EE58, 3), (0x1EE59, 2), (0x1EE5A, 3), (0x1EE5B, 2), (0x1EE5C, 3), (0x1EE5D, 2), (0x1EE5E, 3),
    (0x1EE5F, 2), (0x1EE60, 3), (0x1EE61, 2), (0x1EE63, 3), (0x1EE64, 2), (0x1EE65, 3), (0x1EE67, 2), (0x1EE6B, 3),
    (0x1EE6C, 2), (0x1EE73, 3), (0x1EE74, 2), (0x1EE78, 3), (0x1EE79, 2), (0x1EE7D, 3), (0x1EE7E, 2), (0x1EE7F, 3),
    (0x1EE80, 2), (0x1EE8A, 3), (0x1EE8B, 2), (0x1EE9C, 3), (0x1EEA1, 2), (0x1EEA4, 3), (0x1EEA5, 2), (0x1EEAA, 3),
    (0x1EEAB, 2), (0x1EEBC, 3), (0x1EEF0, 0), (0x1EEF2, 3), (0x1F000, 0), (0x1F02C, 3), (0x1F030, 0), (0x1F094, 3),
    (0x1F0A0, 0), (0x1F0AF, 3), (0x1F0B1, 0), (0x1F0C0, 3), (0x1F0C1, 0), (0x1F0D0, 3), (0x1F0D1, 0), (0x1F0F6, 3),
    (0x1F100, 0), (0x1F1AE, 3), (0x1F1E6, 0), (0x1F203, 3), (0x1F210, 0), (0x1F23C, 3), (0x1F240, 0), (0x1F249, 3),
    (0x1F250, 0), (0x1F252, 3), (0x1F260, 0), (0x1F266, 3), (0x1F300, 0), (0x1F6D8, 3), (0x1F6DC, 0), (0x1F6ED, 3),
    (0x1F6F0, 0), (0x1F6FD, 3), (0x1F700, 0), (0x1F777, 3), (0x1F77B, 0), (0x1F7DA, 3), (0x1F7E0, 0), (0x1F7EC, 3),
    (0x1F7F0, 0), (0x1F7F1, 3), (0x1F800, 0), (0x1F80C, 3), (0x1F810, 0), (0x1F848, 3), (0x1F850, 0), (0x1F85A, 3),
    (0x1F860, 0), (0x1F888, 3), (0x1F890, 0), (0x1F8AE, 3), (0x1F8B0, 0), (0x1F8B2, 3), (0x1F900, 0), (0x1FA54, 3),
    (0x1FA60, 0), (0x1FA6E, 3), (0x1FA70, 0), (0x1FA7D, 3), (0x1FA80, 0), (0x1FA89, 3), (0x1FA90, 0), (0x1FABE, 3),
    (0x1FABF, 0), (0x1FAC6, 3), (0x1FACE, 0), (0x1FADC, 3), (0x1FAE0, 0), (0x1FAE9, 3), (0x1FAF0, 0), (0x1FAF9, 3),
    (0x1FB00, 0), (0x1FB93, 3), (0x1FB94, 0), (0x1FBCB, 3), (0x1FBF0, 1), (0x1FBFA, 3), (0x20000, 2), (0x2A6E0, 3),
    (0x2A700, 2), (0x2B73A, 3), (0x2B740, 2), (0x2B81E, 3), (0x2B820, 2), (0x2CEA2, 3), (0x2CEB0, 2), (0x2EBE1, 3),
    (0x2F800, 2), (0x2FA1E, 3), (0x30000, 2), (0x3134B, 3), (0x31350, 2), (0x323B0, 3), (0xE0001, 0), (0xE0002, 3),
    (0xE0020, 0), (0xE0080, 3), (0xE0100, 1), (0xE01F0, 3), (0xF0000, 0), (0xFFFFE, 3), (0x100000, 0), (0x10FFFE, 3),
];
