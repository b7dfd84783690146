 0x2d, 0x6c, 0x61, 0x63, 0x6c, 0x20, 0x2d, 0x6c, 0x63, 0x61, 0x70, 0x20, 0x2d, 0x6c, 0x73, 0x65,
 0x6c, 0x69, 0x6e, 0x75, 0x78, 0x20, 0x2d, 0x6c, 0x75, 0x72, 0x69, 0x6e, 0x67, 0x20, 0x2d, 0x6c,
 0x6f, 0x6e, 0x69, 0x67, 0x20, 0x20, 0x2d, 0x6c, 0x72, 0x74, 0x00,
