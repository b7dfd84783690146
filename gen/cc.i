 0x67, 0x63, 0x63, 0x00,
