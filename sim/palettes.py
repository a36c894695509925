"""The machine palettes of the fixed-palette formats, copied from their published tables
(index 0 is unused), so that a change of a palette entry is noticed."""
PEC = [None, 0x0E1F7C, 0x0A55A3, 0x008777, 0x4B6BAF, 0xED171F, 0xD15C00, 0x913697, 0xE49ACB, 0x915FAC, 0x9ED67D, 0xE8A900, 0xFEBA35, 0xFFFF00, 0x70BC1F, 0xBA9800, 0xA8A8A8, 0x7D6F00, 0xFFFFB3, 0x4F5556, 0x000000, 0x0B3D91, 0x770176, 0x293133, 0x2A1301, 0xF64A8A, 0xB27624, 0xFCBBC5, 0xFE370F, 0xF0F0F0, 0x6A1C8A, 0xA8DDC4, 0x2584BB, 0xFEB343, 0xFFF36B, 0xD0A660, 0xD15400, 0x66BA49, 0x134A46, 0x878787, 0xD8CCC6, 0x435607, 0xFDD9DE, 0xF993BC, 0x003822, 0xB2AFD4, 0x686AB0, 0xEFE3B9, 0xF73866, 0xB54B64, 0x132B1A, 0xC70156, 0xFE9E32, 0xA8DEEB, 0x00673E, 0x4E2990, 0x2F7E20, 0xFFCCCC, 0xFFD911, 0x095BA6, 0xF0F970, 0xE3F35B, 0xFF9900, 0xFFF08D, 0xFFC8C8]

JEF = [None, 0x000000, 0xFFFFFF, 0xFFFF17, 0xFF6600, 0x2F5933, 0x237336, 0x65C2C8, 0xAB5A96, 0xF669A0, 0xFF0000, 0xB1704E, 0x0B2F84, 0xE4C35D, 0x481A05, 0xAC9CC7, 0xFCF294, 0xF999B7, 0xFAB381, 0xC9A480, 0x970533, 0xA0B8CC, 0x7FC21C, 0xE5E5E5, 0x889B9B, 0x98D6BD, 0xB2E1E3, 0x368BA0, 0x4F83AB, 0x386A91, 0x071650, 0xF999A2, 0xF9676B, 0xE3311F, 0xE2A188, 0xB59474, 0xE4CF99, 0xFFCB00, 0xE1ADD4, 0xC3007E, 0x80004B, 0x540571, 0xB10525, 0xCAE0C0, 0x899856, 0x5C941A, 0x003114, 0x5DAE94, 0x4CBF8F, 0x007772, 0x595B61, 0xFFFFF2, 0xB15818, 0xCB8A07, 0x986C80, 0x98692D, 0x4D3419, 0x4C330B, 0x33200A, 0x523A97, 0x0D217E, 0x1E77AC, 0xB2DD53, 0xF33689, 0xDE649E, 0x984161, 0x4C5612, 0x4C881F, 0xE4DE79, 0xCB8A1A, 0xCBA21C, 0xFF9805, 0xFCB257, 0xFFE505, 0xF0331F, 0x1A842D, 0x386CAE, 0xE3C4B4, 0xE3AC81]

HUS = [0x000000, 0x0000E7, 0x00C600, 0xFF0000, 0x840084, 0xFFFF00, 0x848484, 0x8484E7, 0x00FF84, 0xFF7B31, 0xFF8CA5, 0x845200, 0xFFFFFF, 0x000084, 0x008400, 0x7B0000, 0xFF6384, 0x522952, 0xFF00FF, 0xFFDE00, 0xFFFF9C, 0x525252, 0xD6D6D6, 0xFF5208, 0xFF9C5A, 0xFF52B5, 0xFFC6DE, 0x523100, 0xB5A584]

SEW = [0x000000, 0x000000, 0xFFFFFF, 0xFFFF17, 0xFAA060, 0x5C7649, 0x40C030, 0x65C2C8, 0xAC80BE, 0xF5BCCB, 0xFF0000, 0xC08000, 0x0000F0, 0xE4C35D, 0xA52A2A, 0xD5B0D4, 0xFCF294, 0xF0D0C0, 0xFFC000, 0xC9A480, 0x9B3D4B, 0xA0B8CC, 0x7FC21C, 0xB9B9B9, 0xA0A0A0, 0x98D6BD, 0xB8F0F0, 0x368BA0, 0x4F83AB, 0x386A91, 0x00206B, 0xE5C5CA, 0xF9676B, 0xE3311F, 0xE2A188, 0xB59474, 0xE4CF99, 0xE1CB00, 0xE1ADD4, 0xC3007E, 0x80004B, 0xA060B0, 0xC04020, 0xCAE0C0, 0x899856, 0x00AA00, 0x218A21, 0x5DAE94, 0x4CBF8F, 0x007772, 0x707070, 0xF2FFFF, 0xB15818, 0xCB8A07, 0xF7927B, 0x98692D, 0xA27148, 0x7B554A, 0x4F3946, 0x523A97, 0x0000A0, 0x0096DE, 0xB2DD53, 0xFA8FBB, 0xDE649E, 0xB55066, 0x5E5747, 0x4C881F, 0xE4DC79, 0xCB8A1A, 0xC6AA42, 0xECB02C, 0xF88040, 0xFFE505, 0xFA7A7A, 0x6BE000, 0x386CAE, 0xD0BAB0, 0xE3BE81]

SHV = [0x000000, 0x0000FF, 0x33CC66, 0xFF0000, 0xFF00FF, 0xFFFF00, 0x7F7F7F, 0x339AFF, 0x00FF00, 0xFF7F00, 0xFFA0B4, 0x994B00, 0xFFFFFF, 0x000000, 0x000000, 0x000000, 0x000000, 0x000000, 0x000000, 0xFF7F7F, 0xFF7FFF, 0xFFFF99, 0xC0C0C0, 0x000000, 0x000000, 0xFFA541, 0xFFCCCC, 0xAF5A0A, 0x000000, 0x000000, 0x000000, 0x000000, 0x000000, 0x00007F, 0x007F00, 0x7F0000, 0x7F007F, 0xC8C800, 0x3C3C3C, 0x000000, 0x000000, 0xE83F00, 0xFF667A]
