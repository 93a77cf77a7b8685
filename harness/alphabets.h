/* capital letters that each localization folds, with their small letters (Unicode simple case mapping); the dotted and dotless i of Turkish are in enc.h */
#if LP == 1
static const char *LPNAME = "babel_turkish"; static const struct { unsigned up, lo; } ALPHA[] = {{0xc7, 0xe7}, {0xd6, 0xf6}, {0xdc, 0xfc}, {0x11e, 0x11f}, {0x15e, 0x15f}, {0, 0}};
#endif
#if LP == 2
static const char *LPNAME = "babel_lithuanian"; static const struct { unsigned up, lo; } ALPHA[] = {{0x104, 0x105}, {0x10c, 0x10d}, {0x116, 0x117}, {0x118, 0x119}, {0x12e, 0x12f}, {0x160, 0x161}, {0x16a, 0x16b}, {0x172, 0x173}, {0x17d, 0x17e}, {0, 0}};
#endif
#if LP == 3
static const char *LPNAME = "babel_kurmanji"; static const struct { unsigned up, lo; } ALPHA[] = {{0xc7, 0xe7}, {0xca, 0xea}, {0xce, 0xee}, {0xdb, 0xfb}, {0x15e, 0x15f}, {0, 0}};
#endif
#if LP == 4
static const char *LPNAME = "babel_cebuano"; static const struct { unsigned up, lo; } ALPHA[] = {{0xd1, 0xf1}, {0, 0}};
#endif
#if LP == 5
static const char *LPNAME = "babel_kazakh"; static const struct { unsigned up, lo; } ALPHA[] = {{0x401, 0x451}, {0x406, 0x456}, {0x410, 0x430}, {0x411, 0x431}, {0x412, 0x432}, {0x413, 0x433}, {0x414, 0x434}, {0x415, 0x435}, {0x416, 0x436}, {0x417, 0x437}, {0x418, 0x438}, {0x419, 0x439}, {0x41a, 0x43a}, {0x41b, 0x43b}, {0x41c, 0x43c}, {0x41d, 0x43d}, {0x41e, 0x43e}, {0x41f, 0x43f}, {0x420, 0x440}, {0x421, 0x441}, {0x422, 0x442}, {0x423, 0x443}, {0x424, 0x444}, {0x425, 0x445}, {0x426, 0x446}, {0x427, 0x447}, {0x428, 0x448}, {0x429, 0x449}, {0x42a, 0x44a}, {0x42b, 0x44b}, {0x42c, 0x44c}, {0x42d, 0x44d}, {0x42e, 0x44e}, {0x42f, 0x44f}, {0x492, 0x493}, {0x49a, 0x49b}, {0x4a2, 0x4a3}, {0x4ae, 0x4af}, {0x4b0, 0x4b1}, {0x4ba, 0x4bb}, {0x4d8, 0x4d9}, {0x4e8, 0x4e9}, {0, 0}};
#endif
#if LP == 6
static const char *LPNAME = "babel_mongolian"; static const struct { unsigned up, lo; } ALPHA[] = {{0x401, 0x451}, {0x410, 0x430}, {0x411, 0x431}, {0x412, 0x432}, {0x413, 0x433}, {0x414, 0x434}, {0x415, 0x435}, {0x416, 0x436}, {0x417, 0x437}, {0x418, 0x438}, {0x419, 0x439}, {0x41a, 0x43a}, {0x41b, 0x43b}, {0x41c, 0x43c}, {0x41d, 0x43d}, {0x41e, 0x43e}, {0x41f, 0x43f}, {0x420, 0x440}, {0x421, 0x441}, {0x422, 0x442}, {0x423, 0x443}, {0x424, 0x444}, {0x425, 0x445}, {0x426, 0x446}, {0x427, 0x447}, {0x428, 0x448}, {0x429, 0x449}, {0x42a, 0x44a}, {0x42b, 0x44b}, {0x42c, 0x44c}, {0x42d, 0x44d}, {0x42e, 0x44e}, {0x42f, 0x44f}, {0x4ae, 0x4af}, {0x4e8, 0x4e9}, {0, 0}};
#endif
#if LP == 7
static const char *LPNAME = "babel_vietnamese"; static const struct { unsigned up, lo; } ALPHA[] = {{0xc0, 0xe0}, {0xc1, 0xe1}, {0xc2, 0xe2}, {0xc3, 0xe3}, {0xc8, 0xe8}, {0xc9, 0xe9}, {0xca, 0xea}, {0xcc, 0xec}, {0xcd, 0xed}, {0xd2, 0xf2}, {0xd3, 0xf3}, {0xd4, 0xf4}, {0xd5, 0xf5}, {0xd9, 0xf9}, {0xda, 0xfa}, {0xdd, 0xfd}, {0x102, 0x103}, {0x110, 0x111}, {0x128, 0x129}, {0x168, 0x169}, {0x1a0, 0x1a1}, {0x1af, 0x1b0}, {0x1ea0, 0x1ea1}, {0x1ea2, 0x1ea3}, {0x1ea4, 0x1ea5}, {0x1ea6, 0x1ea7}, {0x1ea8, 0x1ea9}, {0x1eaa, 0x1eab}, {0x1eac, 0x1ead}, {0x1eae, 0x1eaf}, {0x1eb0, 0x1eb1}, {0x1eb2, 0x1eb3}, {0x1eb4, 0x1eb5}, {0x1eb6, 0x1eb7}, {0x1eb8, 0x1eb9}, {0x1eba, 0x1ebb}, {0x1ebc, 0x1ebd}, {0x1ebe, 0x1ebf}, {0x1ec0, 0x1ec1}, {0x1ec2, 0x1ec3}, {0x1ec4, 0x1ec5}, {0x1ec6, 0x1ec7}, {0x1ec8, 0x1ec9}, {0x1eca, 0x1ecb}, {0x1ecc, 0x1ecd}, {0x1ece, 0x1ecf}, {0x1ed0, 0x1ed1}, {0x1ed2, 0x1ed3}, {0x1ed4, 0x1ed5}, {0x1ed6, 0x1ed7}, {0x1ed8, 0x1ed9}, {0x1eda, 0x1edb}, {0x1edc, 0x1edd}, {0x1ede, 0x1edf}, {0x1ee0, 0x1ee1}, {0x1ee2, 0x1ee3}, {0x1ee4, 0x1ee5}, {0x1ee6, 0x1ee7}, {0x1ee8, 0x1ee9}, {0x1eea, 0x1eeb}, {0x1eec, 0x1eed}, {0x1eee, 0x1eef}, {0x1ef0, 0x1ef1}, {0x1ef2, 0x1ef3}, {0x1ef4, 0x1ef5}, {0x1ef6, 0x1ef7}, {0x1ef8, 0x1ef9}, {0, 0}};
#endif
#if LP == 8
static const char *LPNAME = "babel_guarani"; static const struct { unsigned up, lo; } ALPHA[] = {{0xc1, 0xe1}, {0xc3, 0xe3}, {0xc9, 0xe9}, {0xcd, 0xed}, {0xd1, 0xf1}, {0xd3, 0xf3}, {0xd5, 0xf5}, {0xda, 0xfa}, {0xdd, 0xfd}, {0x128, 0x129}, {0x168, 0x169}, {0x1ebc, 0x1ebd}, {0x1ef8, 0x1ef9}, {0, 0}};
#endif
#if LP == 9
static const char *LPNAME = "ukrainian"; static const struct { unsigned up, lo; } ALPHA[] = {{0x400, 0x450}, {0x401, 0x451}, {0x402, 0x452}, {0x403, 0x453}, {0x404, 0x454}, {0x405, 0x455}, {0x406, 0x456}, {0x407, 0x457}, {0x408, 0x458}, {0x409, 0x459}, {0x40a, 0x45a}, {0x40b, 0x45b}, {0x40c, 0x45c}, {0x40d, 0x45d}, {0x40e, 0x45e}, {0x40f, 0x45f}, {0x410, 0x430}, {0x411, 0x431}, {0x412, 0x432}, {0x413, 0x433}, {0x414, 0x434}, {0x415, 0x435}, {0x416, 0x436}, {0x417, 0x437}, {0x418, 0x438}, {0x419, 0x439}, {0x41a, 0x43a}, {0x41b, 0x43b}, {0x41c, 0x43c}, {0x41d, 0x43d}, {0x41e, 0x43e}, {0x41f, 0x43f}, {0x420, 0x440}, {0x421, 0x441}, {0x422, 0x442}, {0x423, 0x443}, {0x424, 0x444}, {0x425, 0x445}, {0x426, 0x446}, {0x427, 0x447}, {0x428, 0x448}, {0x429, 0x449}, {0x42a, 0x44a}, {0x42b, 0x44b}, {0x42c, 0x44c}, {0x42d, 0x44d}, {0x42e, 0x44e}, {0x42f, 0x44f}, {0x460, 0x461}, {0x462, 0x463}, {0x464, 0x465}, {0x466, 0x467}, {0x468, 0x469}, {0x46a, 0x46b}, {0x46c, 0x46d}, {0x46e, 0x46f}, {0x470, 0x471}, {0x472, 0x473}, {0x474, 0x475}, {0x476, 0x477}, {0x478, 0x479}, {0x47a, 0x47b}, {0x47c, 0x47d}, {0x47e, 0x47f}, {0x480, 0x481}, {0x48a, 0x48b}, {0x48c, 0x48d}, {0x48e, 0x48f}, {0x490, 0x491}, {0x492, 0x493}, {0x494, 0x495}, {0x496, 0x497}, {0x498, 0x499}, {0x49a, 0x49b}, {0x49c, 0x49d}, {0x49e, 0x49f}, {0x4a0, 0x4a1}, {0x4a2, 0x4a3}, {0x4a4, 0x4a5}, {0x4a6, 0x4a7}, {0x4a8, 0x4a9}, {0x4aa, 0x4ab}, {0x4ac, 0x4ad}, {0x4ae, 0x4af}, {0x4b0, 0x4b1}, {0x4b2, 0x4b3}, {0x4b4, 0x4b5}, {0x4b6, 0x4b7}, {0x4b8, 0x4b9}, {0x4ba, 0x4bb}, {0x4bc, 0x4bd}, {0x4be, 0x4bf}, {0x4c1, 0x4c2}, {0x4c3, 0x4c4}, {0x4c5, 0x4c6}, {0x4c7, 0x4c8}, {0x4c9, 0x4ca}, {0x4cb, 0x4cc}, {0x4cd, 0x4ce}, {0x4d0, 0x4d1}, {0x4d2, 0x4d3}, {0x4d4, 0x4d5}, {0x4d6, 0x4d7}, {0x4d8, 0x4d9}, {0x4da, 0x4db}, {0x4dc, 0x4dd}, {0x4de, 0x4df}, {0x4e0, 0x4e1}, {0x4e2, 0x4e3}, {0x4e4, 0x4e5}, {0x4e6, 0x4e7}, {0x4e8, 0x4e9}, {0x4ea, 0x4eb}, {0x4ec, 0x4ed}, {0x4ee, 0x4ef}, {0x4f0, 0x4f1}, {0x4f2, 0x4f3}, {0x4f4, 0x4f5}, {0x4f6, 0x4f7}, {0x4f8, 0x4f9}, {0x4fa, 0x4fb}, {0x4fc, 0x4fd}, {0x4fe, 0x4ff}, {0, 0}};
#endif
#if LP == 10
static const char *LPNAME = "generic"; static const struct { unsigned up, lo; } ALPHA[] = {{0, 0}};
#endif
