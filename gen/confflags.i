 0x00,
