 0x32, 0x38, 0x32, 0x63, 0x30, 0x35, 0x35, 0x00,
