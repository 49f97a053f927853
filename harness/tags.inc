0x42,0x4F,0x50,0x56,0x57,0x5A,0x5F20,0x5F24,0x5F25,0x5F28,0x5F2A,0x5F2D,0x5F30,0x5F34,0x5F36,0x5F50,0x5F53,0x5F54,0x5F55,0x5F56,0x5F57,0x61,0x6F,0x70,0x71,0x72,0x73,0x77,0x80,0x81,0x82,0x83,0x84,0x86,0x87,0x88,0x89,0x8A,0x8C,0x8D,0x8E,0x8F,0x90,0x91,0x92,0x93,0x94,0x95,0x9A,0x9B,0x9C,0x9D,0x9F01,0x9F02,0x9F03,0x9F04,0x9F05,0x9F06,0x9F07,0x9F08,0x9F09,0x9F0A,0x9F0B,0x9F0C,0x9F0D,0x9F0E,0x9F0F,0x9F10,0x9F11,0x9F12,0x9F13,0x9F14,0x9F15,0x9F16,0x9F17,0x9F18,0x9F19,0x9F1A,0x9F1B,0x9F1C,0x9F1D,0x9F1E,0x9F1F,0x9F20,0x9F21,0x9F22,0x9F23,0x9F24,0x9F25,0x9F26,0x9F27,0x9F32,0x9F33,0x9F34,0x9F35,0x9F36,0x9F37,0x9F38,0x9F39,0x9F3A,0x9F3B,0x9F3C,0x9F3D,0x9F40,0x9F41,0x9F42,0x9F43,0x9F44,0x9F45,0x9F46,0x9F47,0x9F48,0x9F49,0x9F4A,0x9F4C,0x9F4D,0x9F4E,0x9F66,0x9F6C,0xA5,0xBF0C,