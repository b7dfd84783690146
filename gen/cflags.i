 0x2d, 0x73, 0x74, 0x64, 0x3d, 0x63, 0x31, 0x37, 0x20, 0x2d, 0x67, 0x20, 0x2d, 0x57, 0x61, 0x6c,
 0x6c, 0x20, 0x20, 0x2d, 0x57, 0x66, 0x6f, 0x72, 0x6d, 0x61, 0x74, 0x3d, 0x32, 0x20, 0x2d, 0x57,
 0x69, 0x6d, 0x70, 0x6c, 0x69, 0x63, 0x69, 0x74, 0x2d, 0x66, 0x61, 0x6c, 0x6c, 0x74, 0x68, 0x72,
 0x6f, 0x75, 0x67, 0x68, 0x20, 0x2d, 0x57, 0x65, 0x72, 0x72, 0x6f, 0x72, 0x3d, 0x69, 0x6d, 0x70,
 0x6c, 0x69, 0x63, 0x69, 0x74, 0x20, 0x2d, 0x57, 0x6d, 0x69, 0x73, 0x73, 0x69, 0x6e, 0x67, 0x2d,
 0x64, 0x65, 0x63, 0x6c, 0x61, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x20, 0x2d, 0x57, 0x73,
 0x68, 0x61, 0x64, 0x6f, 0x77, 0x20, 0x2d, 0x57, 0x73, 0x69, 0x67, 0x6e, 0x2d, 0x63, 0x6f, 0x6d,
 0x70, 0x61, 0x72, 0x65, 0x20, 0x2d, 0x57, 0x73, 0x74, 0x72, 0x69, 0x63, 0x74, 0x2d, 0x70, 0x72,
 0x6f, 0x74, 0x6f, 0x74, 0x79, 0x70, 0x65, 0x73, 0x20, 0x2d, 0x70, 0x74, 0x68, 0x72, 0x65, 0x61,
 0x64, 0x00,
