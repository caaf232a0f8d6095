/* DSTU 4145 curves (polynomial basis): degree, polynomial, A, then B, n, Px, Py as hexadecimal numbers.
 * Validated by native/n_curves.c: irreducible field, generator on the curve, prime order, Hasse interval. */
#ifndef CURVES_GOLDEN_H
#define CURVES_GOLDEN_H
static const struct { int nid, poly[6]; unsigned char data[1 + 4 * 54]; } GOLDEN[10] = {
 { NID_uacurve0, {163, 7, 6, 3, 0, -1}, {0x01,0x05,0xff,0x61,0x08,0x46,0x2a,0x2d,0xc8,0x21,0x0a,0xb4,0x03,0x92,0x5e,0x63,0x8a,0x19,0xc1,0x45,
  0x5d,0x21,0x04,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x02,0xbe,0xc1,0x2b,0xe2,0x26,0x2d,0x39,
  0xbc,0xf1,0x4d,0x02,0xe2,0xf8,0x5f,0x5d,0xd7,0x4c,0xe9,0x83,0xa5,0xc4,0x23,0x72,0x29,0xda,0xf8,0xa3,
  0xf3,0x58,0x23,0xbe,0x03,0x82,0x6f,0x00,0x8a,0x8c,0x51,0xd7,0xb9,0x52,0x84,0xd9,0xd0,0x3f,0xf0,0xe0,
  0x0c,0xe2,0xcd,0x72,0x3a, } },
 { NID_uacurve1, {167, 6, 0, -1, 0, 0}, {0x01,0x6e,0xe3,0xce,0xeb,0x23,0x08,0x11,0x75,0x9f,0x20,0x51,0x8a,0x09,0x30,0xf1,0xa4,0x31,0x5a,0x82,
  0x7d,0xac,0x3f,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xb1,0x2e,0xbc,0xc7,0xd7,0xf2,0x9f,
  0xf7,0x70,0x1f,0x7a,0x1f,0x66,0x53,0x78,0x6a,0x68,0x19,0x28,0x03,0x91,0x0a,0x3d,0x30,0xb2,0xa2,0x01,
  0x8b,0x21,0xcd,0x54,0x5f,0x49,0xeb,0x26,0x78,0x1c,0x0e,0xc6,0xb8,0x90,0x91,0x56,0xd9,0x8e,0xd4,0x35,
  0xe4,0x5f,0xd5,0x99,0x18, } },
 { NID_uacurve2, {173, 10, 2, 1, 0, -1}, {0x00,0x10,0x85,0x76,0xc8,0x04,0x99,0xdb,0x2f,0xc1,0x6e,0xdd,0xf6,0x85,0x3b,0xbb,0x27,0x8f,0x6b,0x6f,
  0xb4,0x37,0xd9,0x08,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x18,0x9b,0x4e,0x67,0x60,0x6e,
  0x38,0x25,0xbb,0x28,0x31,0x04,0xd4,0x1a,0x61,0x9b,0xcc,0x6e,0xad,0xf0,0x44,0x8f,0xa2,0x2f,0xad,0x56,
  0x7a,0x91,0x81,0xd3,0x73,0x89,0xca,0x10,0xb5,0x1c,0xc1,0x28,0x49,0xb2,0x34,0xc7,0x5e,0x6d,0xd2,0x02,
  0x8b,0xf7,0xff,0x5c,0x1c,0xe0,0xd9,0x91,0xa1, } },
 { NID_uacurve3, {179, 4, 2, 1, 0, -1}, {0x01,0x04,0xa6,0xe0,0x85,0x65,0x26,0x43,0x6f,0x2f,0x88,0xdd,0x07,0xa3,0x41,0xe3,0x2d,0x04,0x18,0x45,
  0x72,0xbe,0xb7,0x10,0x03,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xb9,0x81,0x96,0x04,
  0x35,0xfe,0x5a,0xb6,0x42,0x36,0xef,0x06,0xba,0x06,0xfe,0x51,0x46,0x4b,0x2b,0xd2,0x6d,0xc5,0x7f,0x48,
  0x81,0x9b,0xa9,0x95,0x46,0x67,0x02,0x2c,0x7d,0x03,0x02,0x5f,0xbc,0x36,0x35,0x82,0xdc,0xec,0x06,0x50,
  0x80,0xca,0x82,0x87,0xaa,0xff,0x09,0x78,0x8a,0x66,0xdc,0x3a,0x9e, } },
 { NID_uacurve4, {191, 9, 0, -1, 0, 0}, {0x01,0x7b,0xc8,0x6e,0x21,0x02,0x90,0x2e,0xc4,0xd5,0x89,0x0e,0x8b,0x6b,0x49,0x81,0xff,0x27,0xe0,0x48,
  0x27,0x50,0xfe,0xfc,0x03,0x40,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x69,0xa7,0x79,
  0xca,0xc1,0xda,0xbc,0x67,0x88,0xf7,0x47,0x4f,0x71,0x41,0x14,0xb7,0x62,0xf2,0xff,0x4a,0x79,0x12,0xa6,
  0xd2,0xac,0x58,0xb9,0xb5,0xc2,0xfc,0xfe,0x76,0xda,0xeb,0x71,0x29,0x29,0xc4,0x1e,0x56,0x8b,0x77,0xc6,
  0x17,0xef,0xe5,0x90,0x2f,0x11,0xdb,0x96,0xfa,0x96,0x13,0xcd,0x8d,0x03,0xdb,0x08,0xda, } },
 { NID_uacurve5, {233, 9, 4, 1, 0, -1}, {0x01,0x00,0x69,0x73,0xb1,0x50,0x95,0x67,0x55,0x34,0xc7,0xcf,0x7e,0x64,0xa2,0x1b,0xd5,0x4e,0xf5,0xdd,
  0x3b,0x8a,0x03,0x26,0xaa,0x93,0x6e,0xce,0x45,0x4d,0x2c,0x01,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,
  0x00,0x00,0x00,0x00,0x00,0x00,0x13,0xe9,0x74,0xe7,0x2f,0x8a,0x69,0x22,0x03,0x1d,0x26,0x03,0xcf,0xe0,
  0xd7,0x00,0x3f,0xcd,0xa5,0x26,0xb6,0xcd,0xf8,0x3b,0xa1,0x11,0x8d,0xf3,0x5b,0x3c,0x31,0x76,0x1d,0x35,
  0x45,0xf3,0x27,0x28,0xd0,0x03,0xee,0xb2,0x5e,0xfe,0x96,0x00,0x9c,0xa8,0xb5,0x7a,0x93,0x4c,0x54,0xde,
  0xed,0xa9,0xe5,0x4a,0x7b,0xba,0xd9,0x5e,0x3b,0x2e,0x91,0xc5,0x4d,0x32,0xbe,0x0b,0x9d,0xf9,0x6d,0x8d,
  0x35, } },
 { NID_uacurve6, {257, 12, 0, -1, 0, 0}, {0x00,0x01,0xce,0xf4,0x94,0x72,0x01,0x15,0x65,0x7e,0x18,0xf9,0x38,0xd7,0xa7,0x94,0x23,0x94,0xff,0x94,
  0x25,0xc1,0x45,0x8c,0x57,0x86,0x1f,0x9e,0xea,0x6a,0xdb,0xe3,0xbe,0x10,0x00,0x80,0x00,0x00,0x00,0x00,
  0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x67,0x59,0x21,0x3a,0xf1,0x82,0xe9,0x87,0xd3,
  0xe1,0x77,0x14,0x90,0x7d,0x47,0x0d,0x00,0x2a,0x29,0xef,0x20,0x7d,0x0e,0x9b,0x6c,0x55,0xcd,0x26,0x0b,
  0x30,0x6c,0x7e,0x00,0x7a,0xc4,0x91,0xca,0x1b,0x10,0xc6,0x23,0x34,0xa9,0xe8,0xdc,0xd8,0xd2,0x0f,0xb7,
  0x01,0x06,0x86,0xd4,0x1f,0xf7,0x44,0xd4,0x44,0x9f,0xcc,0xf6,0xd8,0xee,0xa0,0x31,0x02,0xe6,0x81,0x2c,
  0x93,0xa9,0xd6,0x0b,0x97,0x8b,0x70,0x2c,0xf1,0x56,0xd8,0x14,0xef, } },
 { NID_uacurve7, {307, 8, 4, 2, 0, -1}, {0x01,0x03,0x93,0xc7,0xf7,0xd5,0x36,0x66,0xb5,0x05,0x4b,0x5e,0x6c,0x6d,0x3d,0xe9,0x4f,0x42,0x96,0xc0,
  0xc5,0x99,0xe2,0xe2,0xe2,0x41,0x05,0x0d,0xf1,0x8b,0x60,0x90,0xbd,0xc9,0x01,0x86,0x90,0x49,0x68,0xbb,
  0x03,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,
  0xc0,0x79,0xc2,0xf3,0x82,0x5d,0xa7,0x0d,0x39,0x0f,0xbb,0xa5,0x88,0xd4,0x60,0x40,0x22,0xb7,0xb7,0x02,
  0x16,0xee,0x8b,0x18,0x9d,0x29,0x1a,0x02,0x24,0x98,0x4c,0x1e,0x92,0xf1,0xd1,0x6b,0xf7,0x5c,0xcd,0x82,
  0x5a,0x08,0x7a,0x23,0x9b,0x27,0x6d,0x31,0x67,0x74,0x3c,0x52,0xc0,0x2d,0x6e,0x72,0x32,0xaa,0x05,0xd9,
  0x30,0x6b,0xac,0xd2,0x2b,0x7f,0xae,0xb0,0x9d,0x2e,0x04,0x9c,0x6e,0x28,0x66,0xc5,0xd1,0x67,0x77,0x62,
  0xa8,0xf2,0xf2,0xdc,0x9a,0x11,0xc7,0xf7,0xbe,0x83,0x40,0xab,0x22,0x37,0xc7,0xf2,0xa0, } },
 { NID_uacurve8, {367, 21, 0, -1, 0, 0}, {0x01,0x43,0xfc,0x8a,0xd2,0x42,0xb0,0xb7,0xa6,0xf3,0xd1,0x62,0x7a,0xd5,0x65,0x44,0x47,0x55,0x6b,0x47,
  0xbf,0x6a,0xa4,0xa6,0x4b,0x0c,0x2a,0xfe,0x42,0xca,0xda,0xb8,0xf9,0x3d,0x92,0x39,0x4c,0x79,0xa7,0x97,
  0x55,0x43,0x7b,0x56,0x99,0x51,0x36,0x40,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,
  0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x00,0x9c,0x30,0x0b,0x75,0xa3,0xfa,0x82,0x4f,0x22,0x42,
  0x8f,0xd2,0x8c,0xe8,0x81,0x22,0x45,0xef,0x44,0x04,0x9b,0x2d,0x49,0x32,0x4a,0x6e,0xdd,0xd5,0x12,0xf0,
  0x8c,0x49,0xa9,0x9a,0xe0,0xd3,0xf9,0x61,0x19,0x7a,0x76,0x41,0x3e,0x7b,0xe8,0x1a,0x40,0x0c,0xa6,0x81,
  0xe0,0x96,0x39,0xb5,0xfe,0x12,0xe5,0x9a,0x10,0x9f,0x78,0xbf,0x4a,0x37,0x35,0x41,0xb3,0xb9,0xa1,0x01,
  0xab,0x59,0x7a,0x5b,0x44,0x77,0xf5,0x9e,0x39,0x53,0x90,0x07,0xc7,0xf9,0x77,0xd1,0xa5,0x67,0xb9,0x2b,
  0x04,0x3a,0x49,0xc6,0xb6,0x19,0x84,0xc3,0xfe,0x34,0x81,0xaa,0xf4,0x54,0xcd,0x41,0xba,0x1f,0x05,0x16,
  0x26,0x44,0x2b,0x3c,0x10, } },
 { NID_uacurve9, {431, 5, 3, 1, 0, -1}, {0x01,0x03,0xce,0x10,0x49,0x0f,0x6a,0x70,0x8f,0xc2,0x6d,0xfe,0x8c,0x3d,0x27,0xc4,0xf9,0x4e,0x69,0x01,
  0x34,0xd5,0xbf,0xf9,0x88,0xd8,0xd2,0x8a,0xae,0xae,0xde,0x97,0x59,0x36,0xc6,0x6b,0xac,0x53,0x6b,0x18,
  0xae,0x2d,0xc3,0x12,0xca,0x49,0x31,0x17,0xda,0xa4,0x69,0xc6,0x40,0xca,0xf3,0x3f,0xff,0xff,0xff,0xff,
  0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,
  0xff,0xff,0xba,0x31,0x75,0x45,0x80,0x09,0xa8,0xc0,0xa7,0x24,0xf0,0x2f,0x81,0xaa,0x8a,0x1f,0xcb,0xaf,
  0x80,0xd9,0x0c,0x7a,0x95,0x11,0x05,0x04,0xcf,0x1a,0x62,0xba,0x79,0xd9,0x81,0x33,0xa1,0x6b,0xba,0xe7,
  0xed,0x9a,0x8e,0x03,0xc3,0x2e,0x08,0x24,0xd5,0x7a,0xef,0x72,0xf8,0x89,0x86,0x87,0x4e,0x5a,0xae,0x49,
  0xc2,0x7b,0xed,0x49,0xa2,0xa9,0x50,0x58,0x06,0x84,0x26,0xc2,0x17,0x1e,0x99,0xfd,0x3b,0x43,0xc5,0x94,
  0x7c,0x85,0x7d,0x70,0xb5,0xe1,0xe1,0x40,0x31,0xc1,0xf7,0x0b,0xbe,0xfe,0x96,0xbd,0xde,0x66,0xf4,0x51,
  0x75,0x4b,0x4c,0xa5,0xf4,0x8d,0xa2,0x41,0xf3,0x31,0xaa,0x39,0x6b,0x8d,0x18,0x39,0xa8,0x55,0xc1,0x76,
  0x9b,0x1e,0xa1,0x4b,0xa5,0x33,0x08,0xb5,0xe2,0x72,0x37,0x24,0xe0,0x90,0xe0,0x2d,0xb9, } },
};
#endif
