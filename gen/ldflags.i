 0x2d, 0x57, 0x6c, 0x2c, 0x2d, 0x7a, 0x2c, 0x6e, 0x6f, 0x77, 0x20, 0x2d, 0x4c, 0x2f, 0x75, 0x73,
 0x72, 0x2f, 0x6c, 0x69, 0x62, 0x36, 0x34, 0x20, 0x00,
