 0x2d, 0x49, 0x73, 0x72, 0x63, 0x20, 0x2d, 0x49, 0x67, 0x65, 0x6e, 0x20, 0x2d, 0x69, 0x6e, 0x63,
 0x6c, 0x75, 0x64, 0x65, 0x20, 0x73, 0x72, 0x63, 0x2f, 0x70, 0x72, 0x65, 0x6c, 0x75, 0x64, 0x65,
 0x2e, 0x68, 0x20, 0x20, 0x20, 0x2d, 0x4d, 0x44, 0x20, 0x2d, 0x4d, 0x50, 0x00,
