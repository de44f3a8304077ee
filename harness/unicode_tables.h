// generated by tools/gen_unicode.py from Unicode 15.0.0
#pragma once
#include <cstdint>
inline uint32_t u_upper(uint32_t c)   // simple mapping
{
    uint32_t d = 0;
    d |= (uint32_t)-(int32_t)(c - 0x61u <= 0x19u) & 0xFFFFFFE0u;
    d |= (uint32_t)-(int32_t)(c == 0xB5u) & 0x2E7u;
    d |= (uint32_t)-(int32_t)(c - 0xE0u <= 0x16u) & 0xFFFFFFE0u;
    d |= (uint32_t)-(int32_t)(c - 0xF8u <= 0x6u) & 0xFFFFFFE0u;
    d |= (uint32_t)-(int32_t)(c == 0xFFu) & 0x79u;
    d |= (uint32_t)-(int32_t)(((c - 0x101u <= 0x2Eu) & !((c ^ 0x101u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x131u) & 0xFFFFFF18u;
    d |= (uint32_t)-(int32_t)(((c - 0x133u <= 0x4u) & !((c ^ 0x133u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0x13Au <= 0xEu) & !((c ^ 0x13Au) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0x14Bu <= 0x2Cu) & !((c ^ 0x14Bu) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0x17Au <= 0x4u) & !((c ^ 0x17Au) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x17Fu) & 0xFFFFFED4u;
    d |= (uint32_t)-(int32_t)(c == 0x180u) & 0xC3u;
    d |= (uint32_t)-(int32_t)(((c - 0x183u <= 0x2u) & !((c ^ 0x183u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x188u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x18Cu) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x192u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x195u) & 0x61u;
    d |= (uint32_t)-(int32_t)(c == 0x199u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x19Au) & 0xA3u;
    d |= (uint32_t)-(int32_t)(c == 0x19Eu) & 0x82u;
    d |= (uint32_t)-(int32_t)(((c - 0x1A1u <= 0x4u) & !((c ^ 0x1A1u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1A8u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1ADu) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1B0u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0x1B4u <= 0x2u) & !((c ^ 0x1B4u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1B9u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1BDu) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1BFu) & 0x38u;
    d |= (uint32_t)-(int32_t)(c == 0x1C5u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1C6u) & 0xFFFFFFFEu;
    d |= (uint32_t)-(int32_t)(c == 0x1C8u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1C9u) & 0xFFFFFFFEu;
    d |= (uint32_t)-(int32_t)(c == 0x1CBu) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1CCu) & 0xFFFFFFFEu;
    d |= (uint32_t)-(int32_t)(((c - 0x1CEu <= 0xEu) & !((c ^ 0x1CEu) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1DDu) & 0xFFFFFFB1u;
    d |= (uint32_t)-(int32_t)(((c - 0x1DFu <= 0x10u) & !((c ^ 0x1DFu) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1F2u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1F3u) & 0xFFFFFFFEu;
    d |= (uint32_t)-(int32_t)(c == 0x1F5u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0x1F9u <= 0x26u) & !((c ^ 0x1F9u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0x223u <= 0x10u) & !((c ^ 0x223u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x23Cu) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c - 0x23Fu <= 0x1u) & 0x2A3Fu;
    d |= (uint32_t)-(int32_t)(c == 0x242u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0x247u <= 0x8u) & !((c ^ 0x247u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x250u) & 0x2A1Fu;
    d |= (uint32_t)-(int32_t)(c == 0x251u) & 0x2A1Cu;
    d |= (uint32_t)-(int32_t)(c == 0x252u) & 0x2A1Eu;
    d |= (uint32_t)-(int32_t)(c == 0x253u) & 0xFFFFFF2Eu;
    d |= (uint32_t)-(int32_t)(c == 0x254u) & 0xFFFFFF32u;
    d |= (uint32_t)-(int32_t)(c - 0x256u <= 0x1u) & 0xFFFFFF33u;
    d |= (uint32_t)-(int32_t)(c == 0x259u) & 0xFFFFFF36u;
    d |= (uint32_t)-(int32_t)(c == 0x25Bu) & 0xFFFFFF35u;
    d |= (uint32_t)-(int32_t)(c == 0x25Cu) & 0xA54Fu;
    d |= (uint32_t)-(int32_t)(c == 0x260u) & 0xFFFFFF33u;
    d |= (uint32_t)-(int32_t)(c == 0x261u) & 0xA54Bu;
    d |= (uint32_t)-(int32_t)(c == 0x263u) & 0xFFFFFF31u;
    d |= (uint32_t)-(int32_t)(c == 0x265u) & 0xA528u;
    d |= (uint32_t)-(int32_t)(c == 0x266u) & 0xA544u;
    d |= (uint32_t)-(int32_t)(c == 0x268u) & 0xFFFFFF2Fu;
    d |= (uint32_t)-(int32_t)(c == 0x269u) & 0xFFFFFF2Du;
    d |= (uint32_t)-(int32_t)(c == 0x26Au) & 0xA544u;
    d |= (uint32_t)-(int32_t)(c == 0x26Bu) & 0x29F7u;
    d |= (uint32_t)-(int32_t)(c == 0x26Cu) & 0xA541u;
    d |= (uint32_t)-(int32_t)(c == 0x26Fu) & 0xFFFFFF2Du;
    d |= (uint32_t)-(int32_t)(c == 0x271u) & 0x29FDu;
    d |= (uint32_t)-(int32_t)(c == 0x272u) & 0xFFFFFF2Bu;
    d |= (uint32_t)-(int32_t)(c == 0x275u) & 0xFFFFFF2Au;
    d |= (uint32_t)-(int32_t)(c == 0x27Du) & 0x29E7u;
    d |= (uint32_t)-(int32_t)(c == 0x280u) & 0xFFFFFF26u;
    d |= (uint32_t)-(int32_t)(c == 0x282u) & 0xA543u;
    d |= (uint32_t)-(int32_t)(c == 0x283u) & 0xFFFFFF26u;
    d |= (uint32_t)-(int32_t)(c == 0x287u) & 0xA52Au;
    d |= (uint32_t)-(int32_t)(c == 0x288u) & 0xFFFFFF26u;
    d |= (uint32_t)-(int32_t)(c == 0x289u) & 0xFFFFFFBBu;
    d |= (uint32_t)-(int32_t)(c - 0x28Au <= 0x1u) & 0xFFFFFF27u;
    d |= (uint32_t)-(int32_t)(c == 0x28Cu) & 0xFFFFFFB9u;
    d |= (uint32_t)-(int32_t)(c == 0x292u) & 0xFFFFFF25u;
    d |= (uint32_t)-(int32_t)(c == 0x29Du) & 0xA515u;
    d |= (uint32_t)-(int32_t)(c == 0x29Eu) & 0xA512u;
    d |= (uint32_t)-(int32_t)(c == 0x345u) & 0x54u;
    d |= (uint32_t)-(int32_t)(((c - 0x371u <= 0x2u) & !((c ^ 0x371u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x377u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c - 0x37Bu <= 0x2u) & 0x82u;
    d |= (uint32_t)-(int32_t)(c == 0x3ACu) & 0xFFFFFFDAu;
    d |= (uint32_t)-(int32_t)(c - 0x3ADu <= 0x2u) & 0xFFFFFFDBu;
    d |= (uint32_t)-(int32_t)(c - 0x3B1u <= 0x10u) & 0xFFFFFFE0u;
    d |= (uint32_t)-(int32_t)(c == 0x3C2u) & 0xFFFFFFE1u;
    d |= (uint32_t)-(int32_t)(c - 0x3C3u <= 0x8u) & 0xFFFFFFE0u;
    d |= (uint32_t)-(int32_t)(c == 0x3CCu) & 0xFFFFFFC0u;
    d |= (uint32_t)-(int32_t)(c - 0x3CDu <= 0x1u) & 0xFFFFFFC1u;
    d |= (uint32_t)-(int32_t)(c == 0x3D0u) & 0xFFFFFFC2u;
    d |= (uint32_t)-(int32_t)(c == 0x3D1u) & 0xFFFFFFC7u;
    d |= (uint32_t)-(int32_t)(c == 0x3D5u) & 0xFFFFFFD1u;
    d |= (uint32_t)-(int32_t)(c == 0x3D6u) & 0xFFFFFFCAu;
    d |= (uint32_t)-(int32_t)(c == 0x3D7u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(((c - 0x3D9u <= 0x16u) & !((c ^ 0x3D9u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x3F0u) & 0xFFFFFFAAu;
    d |= (uint32_t)-(int32_t)(c == 0x3F1u) & 0xFFFFFFB0u;
    d |= (uint32_t)-(int32_t)(c == 0x3F2u) & 0x7u;
    d |= (uint32_t)-(int32_t)(c == 0x3F3u) & 0xFFFFFF8Cu;
    d |= (uint32_t)-(int32_t)(c == 0x3F5u) & 0xFFFFFFA0u;
    d |= (uint32_t)-(int32_t)(c == 0x3F8u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x3FBu) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c - 0x430u <= 0x1Fu) & 0xFFFFFFE0u;
    d |= (uint32_t)-(int32_t)(c - 0x450u <= 0xFu) & 0xFFFFFFB0u;
    d |= (uint32_t)-(int32_t)(((c - 0x461u <= 0x20u) & !((c ^ 0x461u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0x48Bu <= 0x34u) & !((c ^ 0x48Bu) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0x4C2u <= 0xCu) & !((c ^ 0x4C2u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x4CFu) & 0xFFFFFFF1u;
    d |= (uint32_t)-(int32_t)(((c - 0x4D1u <= 0x5Eu) & !((c ^ 0x4D1u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c - 0x561u <= 0x25u) & 0xFFFFFFD0u;
    d |= (uint32_t)-(int32_t)(c - 0x10D0u <= 0x2Au) & 0xBC0u;
    d |= (uint32_t)-(int32_t)(c - 0x10FDu <= 0x2u) & 0xBC0u;
    d |= (uint32_t)-(int32_t)(c - 0x13F8u <= 0x5u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c == 0x1C80u) & 0xFFFFE792u;
    d |= (uint32_t)-(int32_t)(c == 0x1C81u) & 0xFFFFE793u;
    d |= (uint32_t)-(int32_t)(c == 0x1C82u) & 0xFFFFE79Cu;
    d |= (uint32_t)-(int32_t)(c - 0x1C83u <= 0x1u) & 0xFFFFE79Eu;
    d |= (uint32_t)-(int32_t)(c == 0x1C85u) & 0xFFFFE79Du;
    d |= (uint32_t)-(int32_t)(c == 0x1C86u) & 0xFFFFE7A4u;
    d |= (uint32_t)-(int32_t)(c == 0x1C87u) & 0xFFFFE7DBu;
    d |= (uint32_t)-(int32_t)(c == 0x1C88u) & 0x89C2u;
    d |= (uint32_t)-(int32_t)(c == 0x1D79u) & 0x8A04u;
    d |= (uint32_t)-(int32_t)(c == 0x1D7Du) & 0xEE6u;
    d |= (uint32_t)-(int32_t)(c == 0x1D8Eu) & 0x8A38u;
    d |= (uint32_t)-(int32_t)(((c - 0x1E01u <= 0x94u) & !((c ^ 0x1E01u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x1E9Bu) & 0xFFFFFFC5u;
    d |= (uint32_t)-(int32_t)(((c - 0x1EA1u <= 0x5Eu) & !((c ^ 0x1EA1u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c - 0x1F00u <= 0x7u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F10u <= 0x5u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F20u <= 0x7u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F30u <= 0x7u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F40u <= 0x5u) & 0x8u;
    d |= (uint32_t)-(int32_t)(((c - 0x1F51u <= 0x6u) & !((c ^ 0x1F51u) & 1))) & 0x8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F60u <= 0x7u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F70u <= 0x1u) & 0x4Au;
    d |= (uint32_t)-(int32_t)(c - 0x1F72u <= 0x3u) & 0x56u;
    d |= (uint32_t)-(int32_t)(c - 0x1F76u <= 0x1u) & 0x64u;
    d |= (uint32_t)-(int32_t)(c - 0x1F78u <= 0x1u) & 0x80u;
    d |= (uint32_t)-(int32_t)(c - 0x1F7Au <= 0x1u) & 0x70u;
    d |= (uint32_t)-(int32_t)(c - 0x1F7Cu <= 0x1u) & 0x7Eu;
    d |= (uint32_t)-(int32_t)(c - 0x1F80u <= 0x7u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F90u <= 0x7u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c - 0x1FA0u <= 0x7u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c - 0x1FB0u <= 0x1u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c == 0x1FB3u) & 0x9u;
    d |= (uint32_t)-(int32_t)(c == 0x1FBEu) & 0xFFFFE3DBu;
    d |= (uint32_t)-(int32_t)(c == 0x1FC3u) & 0x9u;
    d |= (uint32_t)-(int32_t)(c - 0x1FD0u <= 0x1u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c - 0x1FE0u <= 0x1u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c == 0x1FE5u) & 0x7u;
    d |= (uint32_t)-(int32_t)(c == 0x1FF3u) & 0x9u;
    d |= (uint32_t)-(int32_t)(c == 0x214Eu) & 0xFFFFFFE4u;
    d |= (uint32_t)-(int32_t)(c - 0x2170u <= 0xFu) & 0xFFFFFFF0u;
    d |= (uint32_t)-(int32_t)(c == 0x2184u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c - 0x24D0u <= 0x19u) & 0xFFFFFFE6u;
    d |= (uint32_t)-(int32_t)(c - 0x2C30u <= 0x2Fu) & 0xFFFFFFD0u;
    d |= (uint32_t)-(int32_t)(c == 0x2C61u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x2C65u) & 0xFFFFD5D5u;
    d |= (uint32_t)-(int32_t)(c == 0x2C66u) & 0xFFFFD5D8u;
    d |= (uint32_t)-(int32_t)(((c - 0x2C68u <= 0x4u) & !((c ^ 0x2C68u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x2C73u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x2C76u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0x2C81u <= 0x62u) & !((c ^ 0x2C81u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0x2CECu <= 0x2u) & !((c ^ 0x2CECu) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0x2CF3u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c - 0x2D00u <= 0x25u) & 0xFFFFE3A0u;
    d |= (uint32_t)-(int32_t)(c == 0x2D27u) & 0xFFFFE3A0u;
    d |= (uint32_t)-(int32_t)(c == 0x2D2Du) & 0xFFFFE3A0u;
    d |= (uint32_t)-(int32_t)(((c - 0xA641u <= 0x2Cu) & !((c ^ 0xA641u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0xA681u <= 0x1Au) & !((c ^ 0xA681u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0xA723u <= 0xCu) & !((c ^ 0xA723u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0xA733u <= 0x3Cu) & !((c ^ 0xA733u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0xA77Au <= 0x2u) & !((c ^ 0xA77Au) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0xA77Fu <= 0x8u) & !((c ^ 0xA77Fu) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0xA78Cu) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0xA791u <= 0x2u) & !((c ^ 0xA791u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0xA794u) & 0x30u;
    d |= (uint32_t)-(int32_t)(((c - 0xA797u <= 0x12u) & !((c ^ 0xA797u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0xA7B5u <= 0xEu) & !((c ^ 0xA7B5u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0xA7C8u <= 0x2u) & !((c ^ 0xA7C8u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0xA7D1u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(((c - 0xA7D7u <= 0x2u) & !((c ^ 0xA7D7u) & 1))) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0xA7F6u) & 0xFFFFFFFFu;
    d |= (uint32_t)-(int32_t)(c == 0xAB53u) & 0xFFFFFC60u;
    d |= (uint32_t)-(int32_t)(c - 0xAB70u <= 0x4Fu) & 0xFFFF6830u;
    d |= (uint32_t)-(int32_t)(c - 0xFF41u <= 0x19u) & 0xFFFFFFE0u;
    d |= (uint32_t)-(int32_t)(c - 0x10428u <= 0x27u) & 0xFFFFFFD8u;
    d |= (uint32_t)-(int32_t)(c - 0x104D8u <= 0x23u) & 0xFFFFFFD8u;
    d |= (uint32_t)-(int32_t)(c - 0x10597u <= 0xAu) & 0xFFFFFFD9u;
    d |= (uint32_t)-(int32_t)(c - 0x105A3u <= 0xEu) & 0xFFFFFFD9u;
    d |= (uint32_t)-(int32_t)(c - 0x105B3u <= 0x6u) & 0xFFFFFFD9u;
    d |= (uint32_t)-(int32_t)(c - 0x105BBu <= 0x1u) & 0xFFFFFFD9u;
    d |= (uint32_t)-(int32_t)(c - 0x10CC0u <= 0x32u) & 0xFFFFFFC0u;
    d |= (uint32_t)-(int32_t)(c - 0x118C0u <= 0x1Fu) & 0xFFFFFFE0u;
    d |= (uint32_t)-(int32_t)(c - 0x16E60u <= 0x1Fu) & 0xFFFFFFE0u;
    d |= (uint32_t)-(int32_t)(c - 0x1E922u <= 0x21u) & 0xFFFFFFDEu;
    return c + d;
}
inline uint32_t u_lower(uint32_t c)   // simple mapping
{
    uint32_t d = 0;
    d |= (uint32_t)-(int32_t)(c - 0x41u <= 0x19u) & 0x20u;
    d |= (uint32_t)-(int32_t)(c - 0xC0u <= 0x16u) & 0x20u;
    d |= (uint32_t)-(int32_t)(c - 0xD8u <= 0x6u) & 0x20u;
    d |= (uint32_t)-(int32_t)(((c - 0x100u <= 0x2Eu) & !((c ^ 0x100u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x130u) & 0xFFFFFF39u;
    d |= (uint32_t)-(int32_t)(((c - 0x132u <= 0x4u) & !((c ^ 0x132u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0x139u <= 0xEu) & !((c ^ 0x139u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0x14Au <= 0x2Cu) & !((c ^ 0x14Au) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x178u) & 0xFFFFFF87u;
    d |= (uint32_t)-(int32_t)(((c - 0x179u <= 0x4u) & !((c ^ 0x179u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x181u) & 0xD2u;
    d |= (uint32_t)-(int32_t)(((c - 0x182u <= 0x2u) & !((c ^ 0x182u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x186u) & 0xCEu;
    d |= (uint32_t)-(int32_t)(c == 0x187u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c - 0x189u <= 0x1u) & 0xCDu;
    d |= (uint32_t)-(int32_t)(c == 0x18Bu) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x18Eu) & 0x4Fu;
    d |= (uint32_t)-(int32_t)(c == 0x18Fu) & 0xCAu;
    d |= (uint32_t)-(int32_t)(c == 0x190u) & 0xCBu;
    d |= (uint32_t)-(int32_t)(c == 0x191u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x193u) & 0xCDu;
    d |= (uint32_t)-(int32_t)(c == 0x194u) & 0xCFu;
    d |= (uint32_t)-(int32_t)(c == 0x196u) & 0xD3u;
    d |= (uint32_t)-(int32_t)(c == 0x197u) & 0xD1u;
    d |= (uint32_t)-(int32_t)(c == 0x198u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x19Cu) & 0xD3u;
    d |= (uint32_t)-(int32_t)(c == 0x19Du) & 0xD5u;
    d |= (uint32_t)-(int32_t)(c == 0x19Fu) & 0xD6u;
    d |= (uint32_t)-(int32_t)(((c - 0x1A0u <= 0x4u) & !((c ^ 0x1A0u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x1A6u) & 0xDAu;
    d |= (uint32_t)-(int32_t)(c == 0x1A7u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x1A9u) & 0xDAu;
    d |= (uint32_t)-(int32_t)(c == 0x1ACu) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x1AEu) & 0xDAu;
    d |= (uint32_t)-(int32_t)(c == 0x1AFu) & 0x1u;
    d |= (uint32_t)-(int32_t)(c - 0x1B1u <= 0x1u) & 0xD9u;
    d |= (uint32_t)-(int32_t)(((c - 0x1B3u <= 0x2u) & !((c ^ 0x1B3u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x1B7u) & 0xDBu;
    d |= (uint32_t)-(int32_t)(c == 0x1B8u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x1BCu) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x1C4u) & 0x2u;
    d |= (uint32_t)-(int32_t)(c == 0x1C5u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x1C7u) & 0x2u;
    d |= (uint32_t)-(int32_t)(c == 0x1C8u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x1CAu) & 0x2u;
    d |= (uint32_t)-(int32_t)(((c - 0x1CBu <= 0x10u) & !((c ^ 0x1CBu) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0x1DEu <= 0x10u) & !((c ^ 0x1DEu) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x1F1u) & 0x2u;
    d |= (uint32_t)-(int32_t)(((c - 0x1F2u <= 0x2u) & !((c ^ 0x1F2u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x1F6u) & 0xFFFFFF9Fu;
    d |= (uint32_t)-(int32_t)(c == 0x1F7u) & 0xFFFFFFC8u;
    d |= (uint32_t)-(int32_t)(((c - 0x1F8u <= 0x26u) & !((c ^ 0x1F8u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x220u) & 0xFFFFFF7Eu;
    d |= (uint32_t)-(int32_t)(((c - 0x222u <= 0x10u) & !((c ^ 0x222u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x23Au) & 0x2A2Bu;
    d |= (uint32_t)-(int32_t)(c == 0x23Bu) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x23Du) & 0xFFFFFF5Du;
    d |= (uint32_t)-(int32_t)(c == 0x23Eu) & 0x2A28u;
    d |= (uint32_t)-(int32_t)(c == 0x241u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x243u) & 0xFFFFFF3Du;
    d |= (uint32_t)-(int32_t)(c == 0x244u) & 0x45u;
    d |= (uint32_t)-(int32_t)(c == 0x245u) & 0x47u;
    d |= (uint32_t)-(int32_t)(((c - 0x246u <= 0x8u) & !((c ^ 0x246u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0x370u <= 0x2u) & !((c ^ 0x370u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x376u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x37Fu) & 0x74u;
    d |= (uint32_t)-(int32_t)(c == 0x386u) & 0x26u;
    d |= (uint32_t)-(int32_t)(c - 0x388u <= 0x2u) & 0x25u;
    d |= (uint32_t)-(int32_t)(c == 0x38Cu) & 0x40u;
    d |= (uint32_t)-(int32_t)(c - 0x38Eu <= 0x1u) & 0x3Fu;
    d |= (uint32_t)-(int32_t)(c - 0x391u <= 0x10u) & 0x20u;
    d |= (uint32_t)-(int32_t)(c - 0x3A3u <= 0x8u) & 0x20u;
    d |= (uint32_t)-(int32_t)(c == 0x3CFu) & 0x8u;
    d |= (uint32_t)-(int32_t)(((c - 0x3D8u <= 0x16u) & !((c ^ 0x3D8u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x3F4u) & 0xFFFFFFC4u;
    d |= (uint32_t)-(int32_t)(c == 0x3F7u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x3F9u) & 0xFFFFFFF9u;
    d |= (uint32_t)-(int32_t)(c == 0x3FAu) & 0x1u;
    d |= (uint32_t)-(int32_t)(c - 0x3FDu <= 0x2u) & 0xFFFFFF7Eu;
    d |= (uint32_t)-(int32_t)(c - 0x400u <= 0xFu) & 0x50u;
    d |= (uint32_t)-(int32_t)(c - 0x410u <= 0x1Fu) & 0x20u;
    d |= (uint32_t)-(int32_t)(((c - 0x460u <= 0x20u) & !((c ^ 0x460u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0x48Au <= 0x34u) & !((c ^ 0x48Au) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x4C0u) & 0xFu;
    d |= (uint32_t)-(int32_t)(((c - 0x4C1u <= 0xCu) & !((c ^ 0x4C1u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0x4D0u <= 0x5Eu) & !((c ^ 0x4D0u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c - 0x531u <= 0x25u) & 0x30u;
    d |= (uint32_t)-(int32_t)(c - 0x10A0u <= 0x25u) & 0x1C60u;
    d |= (uint32_t)-(int32_t)(c == 0x10C7u) & 0x1C60u;
    d |= (uint32_t)-(int32_t)(c == 0x10CDu) & 0x1C60u;
    d |= (uint32_t)-(int32_t)(c - 0x13A0u <= 0x4Fu) & 0x97D0u;
    d |= (uint32_t)-(int32_t)(c - 0x13F0u <= 0x5u) & 0x8u;
    d |= (uint32_t)-(int32_t)(c - 0x1C90u <= 0x2Au) & 0xFFFFF440u;
    d |= (uint32_t)-(int32_t)(c - 0x1CBDu <= 0x2u) & 0xFFFFF440u;
    d |= (uint32_t)-(int32_t)(((c - 0x1E00u <= 0x94u) & !((c ^ 0x1E00u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x1E9Eu) & 0xFFFFE241u;
    d |= (uint32_t)-(int32_t)(((c - 0x1EA0u <= 0x5Eu) & !((c ^ 0x1EA0u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c - 0x1F08u <= 0x7u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F18u <= 0x5u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F28u <= 0x7u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F38u <= 0x7u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F48u <= 0x5u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(((c - 0x1F59u <= 0x6u) & !((c ^ 0x1F59u) & 1))) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F68u <= 0x7u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F88u <= 0x7u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1F98u <= 0x7u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1FA8u <= 0x7u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1FB8u <= 0x1u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1FBAu <= 0x1u) & 0xFFFFFFB6u;
    d |= (uint32_t)-(int32_t)(c == 0x1FBCu) & 0xFFFFFFF7u;
    d |= (uint32_t)-(int32_t)(c - 0x1FC8u <= 0x3u) & 0xFFFFFFAAu;
    d |= (uint32_t)-(int32_t)(c == 0x1FCCu) & 0xFFFFFFF7u;
    d |= (uint32_t)-(int32_t)(c - 0x1FD8u <= 0x1u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1FDAu <= 0x1u) & 0xFFFFFF9Cu;
    d |= (uint32_t)-(int32_t)(c - 0x1FE8u <= 0x1u) & 0xFFFFFFF8u;
    d |= (uint32_t)-(int32_t)(c - 0x1FEAu <= 0x1u) & 0xFFFFFF90u;
    d |= (uint32_t)-(int32_t)(c == 0x1FECu) & 0xFFFFFFF9u;
    d |= (uint32_t)-(int32_t)(c - 0x1FF8u <= 0x1u) & 0xFFFFFF80u;
    d |= (uint32_t)-(int32_t)(c - 0x1FFAu <= 0x1u) & 0xFFFFFF82u;
    d |= (uint32_t)-(int32_t)(c == 0x1FFCu) & 0xFFFFFFF7u;
    d |= (uint32_t)-(int32_t)(c == 0x2126u) & 0xFFFFE2A3u;
    d |= (uint32_t)-(int32_t)(c == 0x212Au) & 0xFFFFDF41u;
    d |= (uint32_t)-(int32_t)(c == 0x212Bu) & 0xFFFFDFBAu;
    d |= (uint32_t)-(int32_t)(c == 0x2132u) & 0x1Cu;
    d |= (uint32_t)-(int32_t)(c - 0x2160u <= 0xFu) & 0x10u;
    d |= (uint32_t)-(int32_t)(c == 0x2183u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c - 0x24B6u <= 0x19u) & 0x1Au;
    d |= (uint32_t)-(int32_t)(c - 0x2C00u <= 0x2Fu) & 0x30u;
    d |= (uint32_t)-(int32_t)(c == 0x2C60u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x2C62u) & 0xFFFFD609u;
    d |= (uint32_t)-(int32_t)(c == 0x2C63u) & 0xFFFFF11Au;
    d |= (uint32_t)-(int32_t)(c == 0x2C64u) & 0xFFFFD619u;
    d |= (uint32_t)-(int32_t)(((c - 0x2C67u <= 0x4u) & !((c ^ 0x2C67u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x2C6Du) & 0xFFFFD5E4u;
    d |= (uint32_t)-(int32_t)(c == 0x2C6Eu) & 0xFFFFD603u;
    d |= (uint32_t)-(int32_t)(c == 0x2C6Fu) & 0xFFFFD5E1u;
    d |= (uint32_t)-(int32_t)(c == 0x2C70u) & 0xFFFFD5E2u;
    d |= (uint32_t)-(int32_t)(c == 0x2C72u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x2C75u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c - 0x2C7Eu <= 0x1u) & 0xFFFFD5C1u;
    d |= (uint32_t)-(int32_t)(((c - 0x2C80u <= 0x62u) & !((c ^ 0x2C80u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0x2CEBu <= 0x2u) & !((c ^ 0x2CEBu) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0x2CF2u) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0xA640u <= 0x2Cu) & !((c ^ 0xA640u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0xA680u <= 0x1Au) & !((c ^ 0xA680u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0xA722u <= 0xCu) & !((c ^ 0xA722u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0xA732u <= 0x3Cu) & !((c ^ 0xA732u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0xA779u <= 0x2u) & !((c ^ 0xA779u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0xA77Du) & 0xFFFF75FCu;
    d |= (uint32_t)-(int32_t)(((c - 0xA77Eu <= 0x8u) & !((c ^ 0xA77Eu) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0xA78Bu) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0xA78Du) & 0xFFFF5AD8u;
    d |= (uint32_t)-(int32_t)(((c - 0xA790u <= 0x2u) & !((c ^ 0xA790u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0xA796u <= 0x12u) & !((c ^ 0xA796u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0xA7AAu) & 0xFFFF5ABCu;
    d |= (uint32_t)-(int32_t)(c == 0xA7ABu) & 0xFFFF5AB1u;
    d |= (uint32_t)-(int32_t)(c == 0xA7ACu) & 0xFFFF5AB5u;
    d |= (uint32_t)-(int32_t)(c == 0xA7ADu) & 0xFFFF5ABFu;
    d |= (uint32_t)-(int32_t)(c == 0xA7AEu) & 0xFFFF5ABCu;
    d |= (uint32_t)-(int32_t)(c == 0xA7B0u) & 0xFFFF5AEEu;
    d |= (uint32_t)-(int32_t)(c == 0xA7B1u) & 0xFFFF5AD6u;
    d |= (uint32_t)-(int32_t)(c == 0xA7B2u) & 0xFFFF5AEBu;
    d |= (uint32_t)-(int32_t)(c == 0xA7B3u) & 0x3A0u;
    d |= (uint32_t)-(int32_t)(((c - 0xA7B4u <= 0xEu) & !((c ^ 0xA7B4u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0xA7C4u) & 0xFFFFFFD0u;
    d |= (uint32_t)-(int32_t)(c == 0xA7C5u) & 0xFFFF5ABDu;
    d |= (uint32_t)-(int32_t)(c == 0xA7C6u) & 0xFFFF75C8u;
    d |= (uint32_t)-(int32_t)(((c - 0xA7C7u <= 0x2u) & !((c ^ 0xA7C7u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0xA7D0u) & 0x1u;
    d |= (uint32_t)-(int32_t)(((c - 0xA7D6u <= 0x2u) & !((c ^ 0xA7D6u) & 1))) & 0x1u;
    d |= (uint32_t)-(int32_t)(c == 0xA7F5u) & 0x1u;
    d |= (uint32_t)-(int32_t)(c - 0xFF21u <= 0x19u) & 0x20u;
    d |= (uint32_t)-(int32_t)(c - 0x10400u <= 0x27u) & 0x28u;
    d |= (uint32_t)-(int32_t)(c - 0x104B0u <= 0x23u) & 0x28u;
    d |= (uint32_t)-(int32_t)(c - 0x10570u <= 0xAu) & 0x27u;
    d |= (uint32_t)-(int32_t)(c - 0x1057Cu <= 0xEu) & 0x27u;
    d |= (uint32_t)-(int32_t)(c - 0x1058Cu <= 0x6u) & 0x27u;
    d |= (uint32_t)-(int32_t)(c - 0x10594u <= 0x1u) & 0x27u;
    d |= (uint32_t)-(int32_t)(c - 0x10C80u <= 0x32u) & 0x40u;
    d |= (uint32_t)-(int32_t)(c - 0x118A0u <= 0x1Fu) & 0x20u;
    d |= (uint32_t)-(int32_t)(c - 0x16E40u <= 0x1Fu) & 0x20u;
    d |= (uint32_t)-(int32_t)(c - 0x1E900u <= 0x21u) & 0x22u;
    return c + d;
}
inline bool u_digit_bmp(uint32_t c)
{
    bool r = false;
    r |= c - 0x30u <= 0x9u;
    r |= c - 0x660u <= 0x9u;
    r |= c - 0x6F0u <= 0x9u;
    r |= c - 0x7C0u <= 0x9u;
    r |= c - 0x966u <= 0x9u;
    r |= c - 0x9E6u <= 0x9u;
    r |= c - 0xA66u <= 0x9u;
    r |= c - 0xAE6u <= 0x9u;
    r |= c - 0xB66u <= 0x9u;
    r |= c - 0xBE6u <= 0x9u;
    r |= c - 0xC66u <= 0x9u;
    r |= c - 0xCE6u <= 0x9u;
    r |= c - 0xD66u <= 0x9u;
    r |= c - 0xDE6u <= 0x9u;
    r |= c - 0xE50u <= 0x9u;
    r |= c - 0xED0u <= 0x9u;
    r |= c - 0xF20u <= 0x9u;
    r |= c - 0x1040u <= 0x9u;
    r |= c - 0x1090u <= 0x9u;
    r |= c - 0x17E0u <= 0x9u;
    r |= c - 0x1810u <= 0x9u;
    r |= c - 0x1946u <= 0x9u;
    r |= c - 0x19D0u <= 0x9u;
    r |= c - 0x1A80u <= 0x9u;
    r |= c - 0x1A90u <= 0x9u;
    r |= c - 0x1B50u <= 0x9u;
    r |= c - 0x1BB0u <= 0x9u;
    r |= c - 0x1C40u <= 0x9u;
    r |= c - 0x1C50u <= 0x9u;
    r |= c - 0xA620u <= 0x9u;
    r |= c - 0xA8D0u <= 0x9u;
    r |= c - 0xA900u <= 0x9u;
    r |= c - 0xA9D0u <= 0x9u;
    r |= c - 0xA9F0u <= 0x9u;
    r |= c - 0xAA50u <= 0x9u;
    r |= c - 0xABF0u <= 0x9u;
    r |= c - 0xFF10u <= 0x9u;
    return r;
}
inline bool u_space(uint32_t c)
{
    bool r = false;
    r |= c - 0x9u <= 0x4u;
    r |= c - 0x20u <= 0x0u;
    r |= c - 0x85u <= 0x0u;
    r |= c - 0xA0u <= 0x0u;
    r |= c - 0x1680u <= 0x0u;
    r |= c - 0x2000u <= 0xAu;
    r |= c - 0x2028u <= 0x1u;
    r |= c - 0x202Fu <= 0x0u;
    r |= c - 0x205Fu <= 0x0u;
    r |= c - 0x3000u <= 0x0u;
    return r;
}
inline bool u_is_upper(uint32_t c)
{
    bool r = false;
    r |= c - 0x41u <= 0x19u;
    r |= c - 0xC0u <= 0x16u;
    r |= c - 0xD8u <= 0x6u;
    r |= c - 0x100u <= 0x0u;
    r |= c - 0x102u <= 0x0u;
    r |= c - 0x104u <= 0x0u;
    r |= c - 0x106u <= 0x0u;
    r |= c - 0x108u <= 0x0u;
    r |= c - 0x10Au <= 0x0u;
    r |= c - 0x10Cu <= 0x0u;
    r |= c - 0x10Eu <= 0x0u;
    r |= c - 0x110u <= 0x0u;
    r |= c - 0x112u <= 0x0u;
    r |= c - 0x114u <= 0x0u;
    r |= c - 0x116u <= 0x0u;
    r |= c - 0x118u <= 0x0u;
    r |= c - 0x11Au <= 0x0u;
    r |= c - 0x11Cu <= 0x0u;
    r |= c - 0x11Eu <= 0x0u;
    r |= c - 0x120u <= 0x0u;
    r |= c - 0x122u <= 0x0u;
    r |= c - 0x124u <= 0x0u;
    r |= c - 0x126u <= 0x0u;
    r |= c - 0x128u <= 0x0u;
    r |= c - 0x12Au <= 0x0u;
    r |= c - 0x12Cu <= 0x0u;
    r |= c - 0x12Eu <= 0x0u;
    r |= c - 0x130u <= 0x0u;
    r |= c - 0x132u <= 0x0u;
    r |= c - 0x134u <= 0x0u;
    r |= c - 0x136u <= 0x0u;
    r |= c - 0x139u <= 0x0u;
    r |= c - 0x13Bu <= 0x0u;
    r |= c - 0x13Du <= 0x0u;
    r |= c - 0x13Fu <= 0x0u;
    r |= c - 0x141u <= 0x0u;
    r |= c - 0x143u <= 0x0u;
    r |= c - 0x145u <= 0x0u;
    r |= c - 0x147u <= 0x0u;
    r |= c - 0x14Au <= 0x0u;
    r |= c - 0x14Cu <= 0x0u;
    r |= c - 0x14Eu <= 0x0u;
    r |= c - 0x150u <= 0x0u;
    r |= c - 0x152u <= 0x0u;
    r |= c - 0x154u <= 0x0u;
    r |= c - 0x156u <= 0x0u;
    r |= c - 0x158u <= 0x0u;
    r |= c - 0x15Au <= 0x0u;
    r |= c - 0x15Cu <= 0x0u;
    r |= c - 0x15Eu <= 0x0u;
    r |= c - 0x160u <= 0x0u;
    r |= c - 0x162u <= 0x0u;
    r |= c - 0x164u <= 0x0u;
    r |= c - 0x166u <= 0x0u;
    r |= c - 0x168u <= 0x0u;
    r |= c - 0x16Au <= 0x0u;
    r |= c - 0x16Cu <= 0x0u;
    r |= c - 0x16Eu <= 0x0u;
    r |= c - 0x170u <= 0x0u;
    r |= c - 0x172u <= 0x0u;
    r |= c - 0x174u <= 0x0u;
    r |= c - 0x176u <= 0x0u;
    r |= c - 0x178u <= 0x1u;
    r |= c - 0x17Bu <= 0x0u;
    r |= c - 0x17Du <= 0x0u;
    r |= c - 0x181u <= 0x1u;
    r |= c - 0x184u <= 0x0u;
    r |= c - 0x186u <= 0x1u;
    r |= c - 0x189u <= 0x2u;
    r |= c - 0x18Eu <= 0x3u;
    r |= c - 0x193u <= 0x1u;
    r |= c - 0x196u <= 0x2u;
    r |= c - 0x19Cu <= 0x1u;
    r |= c - 0x19Fu <= 0x1u;
    r |= c - 0x1A2u <= 0x0u;
    r |= c - 0x1A4u <= 0x0u;
    r |= c - 0x1A6u <= 0x1u;
    r |= c - 0x1A9u <= 0x0u;
    r |= c - 0x1ACu <= 0x0u;
    r |= c - 0x1AEu <= 0x1u;
    r |= c - 0x1B1u <= 0x2u;
    r |= c - 0x1B5u <= 0x0u;
    r |= c - 0x1B7u <= 0x1u;
    r |= c - 0x1BCu <= 0x0u;
    r |= c - 0x1C4u <= 0x0u;
    r |= c - 0x1C7u <= 0x0u;
    r |= c - 0x1CAu <= 0x0u;
    r |= c - 0x1CDu <= 0x0u;
    r |= c - 0x1CFu <= 0x0u;
    r |= c - 0x1D1u <= 0x0u;
    r |= c - 0x1D3u <= 0x0u;
    r |= c - 0x1D5u <= 0x0u;
    r |= c - 0x1D7u <= 0x0u;
    r |= c - 0x1D9u <= 0x0u;
    r |= c - 0x1DBu <= 0x0u;
    r |= c - 0x1DEu <= 0x0u;
    r |= c - 0x1E0u <= 0x0u;
    r |= c - 0x1E2u <= 0x0u;
    r |= c - 0x1E4u <= 0x0u;
    r |= c - 0x1E6u <= 0x0u;
    r |= c - 0x1E8u <= 0x0u;
    r |= c - 0x1EAu <= 0x0u;
    r |= c - 0x1ECu <= 0x0u;
    r |= c - 0x1EEu <= 0x0u;
    r |= c - 0x1F1u <= 0x0u;
    r |= c - 0x1F4u <= 0x0u;
    r |= c - 0x1F6u <= 0x2u;
    r |= c - 0x1FAu <= 0x0u;
    r |= c - 0x1FCu <= 0x0u;
    r |= c - 0x1FEu <= 0x0u;
    r |= c - 0x200u <= 0x0u;
    r |= c - 0x202u <= 0x0u;
    r |= c - 0x204u <= 0x0u;
    r |= c - 0x206u <= 0x0u;
    r |= c - 0x208u <= 0x0u;
    r |= c - 0x20Au <= 0x0u;
    r |= c - 0x20Cu <= 0x0u;
    r |= c - 0x20Eu <= 0x0u;
    r |= c - 0x210u <= 0x0u;
    r |= c - 0x212u <= 0x0u;
    r |= c - 0x214u <= 0x0u;
    r |= c - 0x216u <= 0x0u;
    r |= c - 0x218u <= 0x0u;
    r |= c - 0x21Au <= 0x0u;
    r |= c - 0x21Cu <= 0x0u;
    r |= c - 0x21Eu <= 0x0u;
    r |= c - 0x220u <= 0x0u;
    r |= c - 0x222u <= 0x0u;
    r |= c - 0x224u <= 0x0u;
    r |= c - 0x226u <= 0x0u;
    r |= c - 0x228u <= 0x0u;
    r |= c - 0x22Au <= 0x0u;
    r |= c - 0x22Cu <= 0x0u;
    r |= c - 0x22Eu <= 0x0u;
    r |= c - 0x230u <= 0x0u;
    r |= c - 0x232u <= 0x0u;
    r |= c - 0x23Au <= 0x1u;
    r |= c - 0x23Du <= 0x1u;
    r |= c - 0x241u <= 0x0u;
    r |= c - 0x243u <= 0x3u;
    r |= c - 0x248u <= 0x0u;
    r |= c - 0x24Au <= 0x0u;
    r |= c - 0x24Cu <= 0x0u;
    r |= c - 0x24Eu <= 0x0u;
    r |= c - 0x370u <= 0x0u;
    r |= c - 0x372u <= 0x0u;
    r |= c - 0x376u <= 0x0u;
    r |= c - 0x37Fu <= 0x0u;
    r |= c - 0x386u <= 0x0u;
    r |= c - 0x388u <= 0x2u;
    r |= c - 0x38Cu <= 0x0u;
    r |= c - 0x38Eu <= 0x1u;
    r |= c - 0x391u <= 0x10u;
    r |= c - 0x3A3u <= 0x8u;
    r |= c - 0x3CFu <= 0x0u;
    r |= c - 0x3D2u <= 0x2u;
    r |= c - 0x3D8u <= 0x0u;
    r |= c - 0x3DAu <= 0x0u;
    r |= c - 0x3DCu <= 0x0u;
    r |= c - 0x3DEu <= 0x0u;
    r |= c - 0x3E0u <= 0x0u;
    r |= c - 0x3E2u <= 0x0u;
    r |= c - 0x3E4u <= 0x0u;
    r |= c - 0x3E6u <= 0x0u;
    r |= c - 0x3E8u <= 0x0u;
    r |= c - 0x3EAu <= 0x0u;
    r |= c - 0x3ECu <= 0x0u;
    r |= c - 0x3EEu <= 0x0u;
    r |= c - 0x3F4u <= 0x0u;
    r |= c - 0x3F7u <= 0x0u;
    r |= c - 0x3F9u <= 0x1u;
    r |= c - 0x3FDu <= 0x32u;
    r |= c - 0x460u <= 0x0u;
    r |= c - 0x462u <= 0x0u;
    r |= c - 0x464u <= 0x0u;
    r |= c - 0x466u <= 0x0u;
    r |= c - 0x468u <= 0x0u;
    r |= c - 0x46Au <= 0x0u;
    r |= c - 0x46Cu <= 0x0u;
    r |= c - 0x46Eu <= 0x0u;
    r |= c - 0x470u <= 0x0u;
    r |= c - 0x472u <= 0x0u;
    r |= c - 0x474u <= 0x0u;
    r |= c - 0x476u <= 0x0u;
    r |= c - 0x478u <= 0x0u;
    r |= c - 0x47Au <= 0x0u;
    r |= c - 0x47Cu <= 0x0u;
    r |= c - 0x47Eu <= 0x0u;
    r |= c - 0x480u <= 0x0u;
    r |= c - 0x48Au <= 0x0u;
    r |= c - 0x48Cu <= 0x0u;
    r |= c - 0x48Eu <= 0x0u;
    r |= c - 0x490u <= 0x0u;
    r |= c - 0x492u <= 0x0u;
    r |= c - 0x494u <= 0x0u;
    r |= c - 0x496u <= 0x0u;
    r |= c - 0x498u <= 0x0u;
    r |= c - 0x49Au <= 0x0u;
    r |= c - 0x49Cu <= 0x0u;
    r |= c - 0x49Eu <= 0x0u;
    r |= c - 0x4A0u <= 0x0u;
    r |= c - 0x4A2u <= 0x0u;
    r |= c - 0x4A4u <= 0x0u;
    r |= c - 0x4A6u <= 0x0u;
    r |= c - 0x4A8u <= 0x0u;
    r |= c - 0x4AAu <= 0x0u;
    r |= c - 0x4ACu <= 0x0u;
    r |= c - 0x4AEu <= 0x0u;
    r |= c - 0x4B0u <= 0x0u;
    r |= c - 0x4B2u <= 0x0u;
    r |= c - 0x4B4u <= 0x0u;
    r |= c - 0x4B6u <= 0x0u;
    r |= c - 0x4B8u <= 0x0u;
    r |= c - 0x4BAu <= 0x0u;
    r |= c - 0x4BCu <= 0x0u;
    r |= c - 0x4BEu <= 0x0u;
    r |= c - 0x4C0u <= 0x1u;
    r |= c - 0x4C3u <= 0x0u;
    r |= c - 0x4C5u <= 0x0u;
    r |= c - 0x4C7u <= 0x0u;
    r |= c - 0x4C9u <= 0x0u;
    r |= c - 0x4CBu <= 0x0u;
    r |= c - 0x4CDu <= 0x0u;
    r |= c - 0x4D0u <= 0x0u;
    r |= c - 0x4D2u <= 0x0u;
    r |= c - 0x4D4u <= 0x0u;
    r |= c - 0x4D6u <= 0x0u;
    r |= c - 0x4D8u <= 0x0u;
    r |= c - 0x4DAu <= 0x0u;
    r |= c - 0x4DCu <= 0x0u;
    r |= c - 0x4DEu <= 0x0u;
    r |= c - 0x4E0u <= 0x0u;
    r |= c - 0x4E2u <= 0x0u;
    r |= c - 0x4E4u <= 0x0u;
    r |= c - 0x4E6u <= 0x0u;
    r |= c - 0x4E8u <= 0x0u;
    r |= c - 0x4EAu <= 0x0u;
    r |= c - 0x4ECu <= 0x0u;
    r |= c - 0x4EEu <= 0x0u;
    r |= c - 0x4F0u <= 0x0u;
    r |= c - 0x4F2u <= 0x0u;
    r |= c - 0x4F4u <= 0x0u;
    r |= c - 0x4F6u <= 0x0u;
    r |= c - 0x4F8u <= 0x0u;
    r |= c - 0x4FAu <= 0x0u;
    r |= c - 0x4FCu <= 0x0u;
    r |= c - 0x4FEu <= 0x0u;
    r |= c - 0x500u <= 0x0u;
    r |= c - 0x502u <= 0x0u;
    r |= c - 0x504u <= 0x0u;
    r |= c - 0x506u <= 0x0u;
    r |= c - 0x508u <= 0x0u;
    r |= c - 0x50Au <= 0x0u;
    r |= c - 0x50Cu <= 0x0u;
    r |= c - 0x50Eu <= 0x0u;
    r |= c - 0x510u <= 0x0u;
    r |= c - 0x512u <= 0x0u;
    r |= c - 0x514u <= 0x0u;
    r |= c - 0x516u <= 0x0u;
    r |= c - 0x518u <= 0x0u;
    r |= c - 0x51Au <= 0x0u;
    r |= c - 0x51Cu <= 0x0u;
    r |= c - 0x51Eu <= 0x0u;
    r |= c - 0x520u <= 0x0u;
    r |= c - 0x522u <= 0x0u;
    r |= c - 0x524u <= 0x0u;
    r |= c - 0x526u <= 0x0u;
    r |= c - 0x528u <= 0x0u;
    r |= c - 0x52Au <= 0x0u;
    r |= c - 0x52Cu <= 0x0u;
    r |= c - 0x52Eu <= 0x0u;
    r |= c - 0x531u <= 0x25u;
    r |= c - 0x10A0u <= 0x25u;
    r |= c - 0x10C7u <= 0x0u;
    r |= c - 0x10CDu <= 0x0u;
    r |= c - 0x13A0u <= 0x55u;
    r |= c - 0x1C90u <= 0x2Au;
    r |= c - 0x1CBDu <= 0x2u;
    r |= c - 0x1E00u <= 0x0u;
    r |= c - 0x1E02u <= 0x0u;
    r |= c - 0x1E04u <= 0x0u;
    r |= c - 0x1E06u <= 0x0u;
    r |= c - 0x1E08u <= 0x0u;
    r |= c - 0x1E0Au <= 0x0u;
    r |= c - 0x1E0Cu <= 0x0u;
    r |= c - 0x1E0Eu <= 0x0u;
    r |= c - 0x1E10u <= 0x0u;
    r |= c - 0x1E12u <= 0x0u;
    r |= c - 0x1E14u <= 0x0u;
    r |= c - 0x1E16u <= 0x0u;
    r |= c - 0x1E18u <= 0x0u;
    r |= c - 0x1E1Au <= 0x0u;
    r |= c - 0x1E1Cu <= 0x0u;
    r |= c - 0x1E1Eu <= 0x0u;
    r |= c - 0x1E20u <= 0x0u;
    r |= c - 0x1E22u <= 0x0u;
    r |= c - 0x1E24u <= 0x0u;
    r |= c - 0x1E26u <= 0x0u;
    r |= c - 0x1E28u <= 0x0u;
    r |= c - 0x1E2Au <= 0x0u;
    r |= c - 0x1E2Cu <= 0x0u;
    r |= c - 0x1E2Eu <= 0x0u;
    r |= c - 0x1E30u <= 0x0u;
    r |= c - 0x1E32u <= 0x0u;
    r |= c - 0x1E34u <= 0x0u;
    r |= c - 0x1E36u <= 0x0u;
    r |= c - 0x1E38u <= 0x0u;
    r |= c - 0x1E3Au <= 0x0u;
    r |= c - 0x1E3Cu <= 0x0u;
    r |= c - 0x1E3Eu <= 0x0u;
    r |= c - 0x1E40u <= 0x0u;
    r |= c - 0x1E42u <= 0x0u;
    r |= c - 0x1E44u <= 0x0u;
    r |= c - 0x1E46u <= 0x0u;
    r |= c - 0x1E48u <= 0x0u;
    r |= c - 0x1E4Au <= 0x0u;
    r |= c - 0x1E4Cu <= 0x0u;
    r |= c - 0x1E4Eu <= 0x0u;
    r |= c - 0x1E50u <= 0x0u;
    r |= c - 0x1E52u <= 0x0u;
    r |= c - 0x1E54u <= 0x0u;
    r |= c - 0x1E56u <= 0x0u;
    r |= c - 0x1E58u <= 0x0u;
    r |= c - 0x1E5Au <= 0x0u;
    r |= c - 0x1E5Cu <= 0x0u;
    r |= c - 0x1E5Eu <= 0x0u;
    r |= c - 0x1E60u <= 0x0u;
    r |= c - 0x1E62u <= 0x0u;
    r |= c - 0x1E64u <= 0x0u;
    r |= c - 0x1E66u <= 0x0u;
    r |= c - 0x1E68u <= 0x0u;
    r |= c - 0x1E6Au <= 0x0u;
    r |= c - 0x1E6Cu <= 0x0u;
    r |= c - 0x1E6Eu <= 0x0u;
    r |= c - 0x1E70u <= 0x0u;
    r |= c - 0x1E72u <= 0x0u;
    r |= c - 0x1E74u <= 0x0u;
    r |= c - 0x1E76u <= 0x0u;
    r |= c - 0x1E78u <= 0x0u;
    r |= c - 0x1E7Au <= 0x0u;
    r |= c - 0x1E7Cu <= 0x0u;
    r |= c - 0x1E7Eu <= 0x0u;
    r |= c - 0x1E80u <= 0x0u;
    r |= c - 0x1E82u <= 0x0u;
    r |= c - 0x1E84u <= 0x0u;
    r |= c - 0x1E86u <= 0x0u;
    r |= c - 0x1E88u <= 0x0u;
    r |= c - 0x1E8Au <= 0x0u;
    r |= c - 0x1E8Cu <= 0x0u;
    r |= c - 0x1E8Eu <= 0x0u;
    r |= c - 0x1E90u <= 0x0u;
    r |= c - 0x1E92u <= 0x0u;
    r |= c - 0x1E94u <= 0x0u;
    r |= c - 0x1E9Eu <= 0x0u;
    r |= c - 0x1EA0u <= 0x0u;
    r |= c - 0x1EA2u <= 0x0u;
    r |= c - 0x1EA4u <= 0x0u;
    r |= c - 0x1EA6u <= 0x0u;
    r |= c - 0x1EA8u <= 0x0u;
    r |= c - 0x1EAAu <= 0x0u;
    r |= c - 0x1EACu <= 0x0u;
    r |= c - 0x1EAEu <= 0x0u;
    r |= c - 0x1EB0u <= 0x0u;
    r |= c - 0x1EB2u <= 0x0u;
    r |= c - 0x1EB4u <= 0x0u;
    r |= c - 0x1EB6u <= 0x0u;
    r |= c - 0x1EB8u <= 0x0u;
    r |= c - 0x1EBAu <= 0x0u;
    r |= c - 0x1EBCu <= 0x0u;
    r |= c - 0x1EBEu <= 0x0u;
    r |= c - 0x1EC0u <= 0x0u;
    r |= c - 0x1EC2u <= 0x0u;
    r |= c - 0x1EC4u <= 0x0u;
    r |= c - 0x1EC6u <= 0x0u;
    r |= c - 0x1EC8u <= 0x0u;
    r |= c - 0x1ECAu <= 0x0u;
    r |= c - 0x1ECCu <= 0x0u;
    r |= c - 0x1ECEu <= 0x0u;
    r |= c - 0x1ED0u <= 0x0u;
    r |= c - 0x1ED2u <= 0x0u;
    r |= c - 0x1ED4u <= 0x0u;
    r |= c - 0x1ED6u <= 0x0u;
    r |= c - 0x1ED8u <= 0x0u;
    r |= c - 0x1EDAu <= 0x0u;
    r |= c - 0x1EDCu <= 0x0u;
    r |= c - 0x1EDEu <= 0x0u;
    r |= c - 0x1EE0u <= 0x0u;
    r |= c - 0x1EE2u <= 0x0u;
    r |= c - 0x1EE4u <= 0x0u;
    r |= c - 0x1EE6u <= 0x0u;
    r |= c - 0x1EE8u <= 0x0u;
    r |= c - 0x1EEAu <= 0x0u;
    r |= c - 0x1EECu <= 0x0u;
    r |= c - 0x1EEEu <= 0x0u;
    r |= c - 0x1EF0u <= 0x0u;
    r |= c - 0x1EF2u <= 0x0u;
    r |= c - 0x1EF4u <= 0x0u;
    r |= c - 0x1EF6u <= 0x0u;
    r |= c - 0x1EF8u <= 0x0u;
    r |= c - 0x1EFAu <= 0x0u;
    r |= c - 0x1EFCu <= 0x0u;
    r |= c - 0x1EFEu <= 0x0u;
    r |= c - 0x1F08u <= 0x7u;
    r |= c - 0x1F18u <= 0x5u;
    r |= c - 0x1F28u <= 0x7u;
    r |= c - 0x1F38u <= 0x7u;
    r |= c - 0x1F48u <= 0x5u;
    r |= c - 0x1F59u <= 0x0u;
    r |= c - 0x1F5Bu <= 0x0u;
    r |= c - 0x1F5Du <= 0x0u;
    r |= c - 0x1F5Fu <= 0x0u;
    r |= c - 0x1F68u <= 0x7u;
    r |= c - 0x1FB8u <= 0x3u;
    r |= c - 0x1FC8u <= 0x3u;
    r |= c - 0x1FD8u <= 0x3u;
    r |= c - 0x1FE8u <= 0x4u;
    r |= c - 0x1FF8u <= 0x3u;
    r |= c - 0x2102u <= 0x0u;
    r |= c - 0x2107u <= 0x0u;
    r |= c - 0x210Bu <= 0x2u;
    r |= c - 0x2110u <= 0x2u;
    r |= c - 0x2115u <= 0x0u;
    r |= c - 0x2119u <= 0x4u;
    r |= c - 0x2124u <= 0x0u;
    r |= c - 0x2126u <= 0x0u;
    r |= c - 0x2128u <= 0x0u;
    r |= c - 0x212Au <= 0x3u;
    r |= c - 0x2130u <= 0x3u;
    r |= c - 0x213Eu <= 0x1u;
    r |= c - 0x2145u <= 0x0u;
    r |= c - 0x2183u <= 0x0u;
    r |= c - 0x2C00u <= 0x2Fu;
    r |= c - 0x2C60u <= 0x0u;
    r |= c - 0x2C62u <= 0x2u;
    r |= c - 0x2C67u <= 0x0u;
    r |= c - 0x2C69u <= 0x0u;
    r |= c - 0x2C6Bu <= 0x0u;
    r |= c - 0x2C6Du <= 0x3u;
    r |= c - 0x2C72u <= 0x0u;
    r |= c - 0x2C75u <= 0x0u;
    r |= c - 0x2C7Eu <= 0x2u;
    r |= c - 0x2C82u <= 0x0u;
    r |= c - 0x2C84u <= 0x0u;
    r |= c - 0x2C86u <= 0x0u;
    r |= c - 0x2C88u <= 0x0u;
    r |= c - 0x2C8Au <= 0x0u;
    r |= c - 0x2C8Cu <= 0x0u;
    r |= c - 0x2C8Eu <= 0x0u;
    r |= c - 0x2C90u <= 0x0u;
    r |= c - 0x2C92u <= 0x0u;
    r |= c - 0x2C94u <= 0x0u;
    r |= c - 0x2C96u <= 0x0u;
    r |= c - 0x2C98u <= 0x0u;
    r |= c - 0x2C9Au <= 0x0u;
    r |= c - 0x2C9Cu <= 0x0u;
    r |= c - 0x2C9Eu <= 0x0u;
    r |= c - 0x2CA0u <= 0x0u;
    r |= c - 0x2CA2u <= 0x0u;
    r |= c - 0x2CA4u <= 0x0u;
    r |= c - 0x2CA6u <= 0x0u;
    r |= c - 0x2CA8u <= 0x0u;
    r |= c - 0x2CAAu <= 0x0u;
    r |= c - 0x2CACu <= 0x0u;
    r |= c - 0x2CAEu <= 0x0u;
    r |= c - 0x2CB0u <= 0x0u;
    r |= c - 0x2CB2u <= 0x0u;
    r |= c - 0x2CB4u <= 0x0u;
    r |= c - 0x2CB6u <= 0x0u;
    r |= c - 0x2CB8u <= 0x0u;
    r |= c - 0x2CBAu <= 0x0u;
    r |= c - 0x2CBCu <= 0x0u;
    r |= c - 0x2CBEu <= 0x0u;
    r |= c - 0x2CC0u <= 0x0u;
    r |= c - 0x2CC2u <= 0x0u;
    r |= c - 0x2CC4u <= 0x0u;
    r |= c - 0x2CC6u <= 0x0u;
    r |= c - 0x2CC8u <= 0x0u;
    r |= c - 0x2CCAu <= 0x0u;
    r |= c - 0x2CCCu <= 0x0u;
    r |= c - 0x2CCEu <= 0x0u;
    r |= c - 0x2CD0u <= 0x0u;
    r |= c - 0x2CD2u <= 0x0u;
    r |= c - 0x2CD4u <= 0x0u;
    r |= c - 0x2CD6u <= 0x0u;
    r |= c - 0x2CD8u <= 0x0u;
    r |= c - 0x2CDAu <= 0x0u;
    r |= c - 0x2CDCu <= 0x0u;
    r |= c - 0x2CDEu <= 0x0u;
    r |= c - 0x2CE0u <= 0x0u;
    r |= c - 0x2CE2u <= 0x0u;
    r |= c - 0x2CEBu <= 0x0u;
    r |= c - 0x2CEDu <= 0x0u;
    r |= c - 0x2CF2u <= 0x0u;
    r |= c - 0xA640u <= 0x0u;
    r |= c - 0xA642u <= 0x0u;
    r |= c - 0xA644u <= 0x0u;
    r |= c - 0xA646u <= 0x0u;
    r |= c - 0xA648u <= 0x0u;
    r |= c - 0xA64Au <= 0x0u;
    r |= c - 0xA64Cu <= 0x0u;
    r |= c - 0xA64Eu <= 0x0u;
    r |= c - 0xA650u <= 0x0u;
    r |= c - 0xA652u <= 0x0u;
    r |= c - 0xA654u <= 0x0u;
    r |= c - 0xA656u <= 0x0u;
    r |= c - 0xA658u <= 0x0u;
    r |= c - 0xA65Au <= 0x0u;
    r |= c - 0xA65Cu <= 0x0u;
    r |= c - 0xA65Eu <= 0x0u;
    r |= c - 0xA660u <= 0x0u;
    r |= c - 0xA662u <= 0x0u;
    r |= c - 0xA664u <= 0x0u;
    r |= c - 0xA666u <= 0x0u;
    r |= c - 0xA668u <= 0x0u;
    r |= c - 0xA66Au <= 0x0u;
    r |= c - 0xA66Cu <= 0x0u;
    r |= c - 0xA680u <= 0x0u;
    r |= c - 0xA682u <= 0x0u;
    r |= c - 0xA684u <= 0x0u;
    r |= c - 0xA686u <= 0x0u;
    r |= c - 0xA688u <= 0x0u;
    r |= c - 0xA68Au <= 0x0u;
    r |= c - 0xA68Cu <= 0x0u;
    r |= c - 0xA68Eu <= 0x0u;
    r |= c - 0xA690u <= 0x0u;
    r |= c - 0xA692u <= 0x0u;
    r |= c - 0xA694u <= 0x0u;
    r |= c - 0xA696u <= 0x0u;
    r |= c - 0xA698u <= 0x0u;
    r |= c - 0xA69Au <= 0x0u;
    r |= c - 0xA722u <= 0x0u;
    r |= c - 0xA724u <= 0x0u;
    r |= c - 0xA726u <= 0x0u;
    r |= c - 0xA728u <= 0x0u;
    r |= c - 0xA72Au <= 0x0u;
    r |= c - 0xA72Cu <= 0x0u;
    r |= c - 0xA72Eu <= 0x0u;
    r |= c - 0xA732u <= 0x0u;
    r |= c - 0xA734u <= 0x0u;
    r |= c - 0xA736u <= 0x0u;
    r |= c - 0xA738u <= 0x0u;
    r |= c - 0xA73Au <= 0x0u;
    r |= c - 0xA73Cu <= 0x0u;
    r |= c - 0xA73Eu <= 0x0u;
    r |= c - 0xA740u <= 0x0u;
    r |= c - 0xA742u <= 0x0u;
    r |= c - 0xA744u <= 0x0u;
    r |= c - 0xA746u <= 0x0u;
    r |= c - 0xA748u <= 0x0u;
    r |= c - 0xA74Au <= 0x0u;
    r |= c - 0xA74Cu <= 0x0u;
    r |= c - 0xA74Eu <= 0x0u;
    r |= c - 0xA750u <= 0x0u;
    r |= c - 0xA752u <= 0x0u;
    r |= c - 0xA754u <= 0x0u;
    r |= c - 0xA756u <= 0x0u;
    r |= c - 0xA758u <= 0x0u;
    r |= c - 0xA75Au <= 0x0u;
    r |= c - 0xA75Cu <= 0x0u;
    r |= c - 0xA75Eu <= 0x0u;
    r |= c - 0xA760u <= 0x0u;
    r |= c - 0xA762u <= 0x0u;
    r |= c - 0xA764u <= 0x0u;
    r |= c - 0xA766u <= 0x0u;
    r |= c - 0xA768u <= 0x0u;
    r |= c - 0xA76Au <= 0x0u;
    r |= c - 0xA76Cu <= 0x0u;
    r |= c - 0xA76Eu <= 0x0u;
    r |= c - 0xA779u <= 0x0u;
    r |= c - 0xA77Bu <= 0x0u;
    r |= c - 0xA77Du <= 0x1u;
    r |= c - 0xA780u <= 0x0u;
    r |= c - 0xA782u <= 0x0u;
    r |= c - 0xA784u <= 0x0u;
    r |= c - 0xA786u <= 0x0u;
    r |= c - 0xA78Bu <= 0x0u;
    r |= c - 0xA78Du <= 0x0u;
    r |= c - 0xA790u <= 0x0u;
    r |= c - 0xA792u <= 0x0u;
    r |= c - 0xA796u <= 0x0u;
    r |= c - 0xA798u <= 0x0u;
    r |= c - 0xA79Au <= 0x0u;
    r |= c - 0xA79Cu <= 0x0u;
    r |= c - 0xA79Eu <= 0x0u;
    r |= c - 0xA7A0u <= 0x0u;
    r |= c - 0xA7A2u <= 0x0u;
    r |= c - 0xA7A4u <= 0x0u;
    r |= c - 0xA7A6u <= 0x0u;
    r |= c - 0xA7A8u <= 0x0u;
    r |= c - 0xA7AAu <= 0x4u;
    r |= c - 0xA7B0u <= 0x4u;
    r |= c - 0xA7B6u <= 0x0u;
    r |= c - 0xA7B8u <= 0x0u;
    r |= c - 0xA7BAu <= 0x0u;
    r |= c - 0xA7BCu <= 0x0u;
    r |= c - 0xA7BEu <= 0x0u;
    r |= c - 0xA7C0u <= 0x0u;
    r |= c - 0xA7C2u <= 0x0u;
    r |= c - 0xA7C4u <= 0x3u;
    r |= c - 0xA7C9u <= 0x0u;
    r |= c - 0xA7D0u <= 0x0u;
    r |= c - 0xA7D6u <= 0x0u;
    r |= c - 0xA7D8u <= 0x0u;
    r |= c - 0xA7F5u <= 0x0u;
    r |= c - 0xFF21u <= 0x19u;
    r |= c - 0x10400u <= 0x27u;
    r |= c - 0x104B0u <= 0x23u;
    r |= c - 0x10570u <= 0xAu;
    r |= c - 0x1057Cu <= 0xEu;
    r |= c - 0x1058Cu <= 0x6u;
    r |= c - 0x10594u <= 0x1u;
    r |= c - 0x10C80u <= 0x32u;
    r |= c - 0x118A0u <= 0x1Fu;
    r |= c - 0x16E40u <= 0x1Fu;
    r |= c - 0x1D400u <= 0x19u;
    r |= c - 0x1D434u <= 0x19u;
    r |= c - 0x1D468u <= 0x19u;
    r |= c - 0x1D49Cu <= 0x0u;
    r |= c - 0x1D49Eu <= 0x1u;
    r |= c - 0x1D4A2u <= 0x0u;
    r |= c - 0x1D4A5u <= 0x1u;
    r |= c - 0x1D4A9u <= 0x3u;
    r |= c - 0x1D4AEu <= 0x7u;
    r |= c - 0x1D4D0u <= 0x19u;
    r |= c - 0x1D504u <= 0x1u;
    r |= c - 0x1D507u <= 0x3u;
    r |= c - 0x1D50Du <= 0x7u;
    r |= c - 0x1D516u <= 0x6u;
    r |= c - 0x1D538u <= 0x1u;
    r |= c - 0x1D53Bu <= 0x3u;
    r |= c - 0x1D540u <= 0x4u;
    r |= c - 0x1D546u <= 0x0u;
    r |= c - 0x1D54Au <= 0x6u;
    r |= c - 0x1D56Cu <= 0x19u;
    r |= c - 0x1D5A0u <= 0x19u;
    r |= c - 0x1D5D4u <= 0x19u;
    r |= c - 0x1D608u <= 0x19u;
    r |= c - 0x1D63Cu <= 0x19u;
    r |= c - 0x1D670u <= 0x19u;
    r |= c - 0x1D6A8u <= 0x18u;
    r |= c - 0x1D6E2u <= 0x18u;
    r |= c - 0x1D71Cu <= 0x18u;
    r |= c - 0x1D756u <= 0x18u;
    r |= c - 0x1D790u <= 0x18u;
    r |= c - 0x1D7CAu <= 0x0u;
    r |= c - 0x1E900u <= 0x21u;
    return r;
}
inline bool u_is_lower(uint32_t c)
{
    bool r = false;
    r |= c - 0x61u <= 0x19u;
    r |= c - 0xB5u <= 0x0u;
    r |= c - 0xDFu <= 0x17u;
    r |= c - 0xF8u <= 0x7u;
    r |= c - 0x101u <= 0x0u;
    r |= c - 0x103u <= 0x0u;
    r |= c - 0x105u <= 0x0u;
    r |= c - 0x107u <= 0x0u;
    r |= c - 0x109u <= 0x0u;
    r |= c - 0x10Bu <= 0x0u;
    r |= c - 0x10Du <= 0x0u;
    r |= c - 0x10Fu <= 0x0u;
    r |= c - 0x111u <= 0x0u;
    r |= c - 0x113u <= 0x0u;
    r |= c - 0x115u <= 0x0u;
    r |= c - 0x117u <= 0x0u;
    r |= c - 0x119u <= 0x0u;
    r |= c - 0x11Bu <= 0x0u;
    r |= c - 0x11Du <= 0x0u;
    r |= c - 0x11Fu <= 0x0u;
    r |= c - 0x121u <= 0x0u;
    r |= c - 0x123u <= 0x0u;
    r |= c - 0x125u <= 0x0u;
    r |= c - 0x127u <= 0x0u;
    r |= c - 0x129u <= 0x0u;
    r |= c - 0x12Bu <= 0x0u;
    r |= c - 0x12Du <= 0x0u;
    r |= c - 0x12Fu <= 0x0u;
    r |= c - 0x131u <= 0x0u;
    r |= c - 0x133u <= 0x0u;
    r |= c - 0x135u <= 0x0u;
    r |= c - 0x137u <= 0x1u;
    r |= c - 0x13Au <= 0x0u;
    r |= c - 0x13Cu <= 0x0u;
    r |= c - 0x13Eu <= 0x0u;
    r |= c - 0x140u <= 0x0u;
    r |= c - 0x142u <= 0x0u;
    r |= c - 0x144u <= 0x0u;
    r |= c - 0x146u <= 0x0u;
    r |= c - 0x148u <= 0x1u;
    r |= c - 0x14Bu <= 0x0u;
    r |= c - 0x14Du <= 0x0u;
    r |= c - 0x14Fu <= 0x0u;
    r |= c - 0x151u <= 0x0u;
    r |= c - 0x153u <= 0x0u;
    r |= c - 0x155u <= 0x0u;
    r |= c - 0x157u <= 0x0u;
    r |= c - 0x159u <= 0x0u;
    r |= c - 0x15Bu <= 0x0u;
    r |= c - 0x15Du <= 0x0u;
    r |= c - 0x15Fu <= 0x0u;
    r |= c - 0x161u <= 0x0u;
    r |= c - 0x163u <= 0x0u;
    r |= c - 0x165u <= 0x0u;
    r |= c - 0x167u <= 0x0u;
    r |= c - 0x169u <= 0x0u;
    r |= c - 0x16Bu <= 0x0u;
    r |= c - 0x16Du <= 0x0u;
    r |= c - 0x16Fu <= 0x0u;
    r |= c - 0x171u <= 0x0u;
    r |= c - 0x173u <= 0x0u;
    r |= c - 0x175u <= 0x0u;
    r |= c - 0x177u <= 0x0u;
    r |= c - 0x17Au <= 0x0u;
    r |= c - 0x17Cu <= 0x0u;
    r |= c - 0x17Eu <= 0x2u;
    r |= c - 0x183u <= 0x0u;
    r |= c - 0x185u <= 0x0u;
    r |= c - 0x188u <= 0x0u;
    r |= c - 0x18Cu <= 0x1u;
    r |= c - 0x192u <= 0x0u;
    r |= c - 0x195u <= 0x0u;
    r |= c - 0x199u <= 0x2u;
    r |= c - 0x19Eu <= 0x0u;
    r |= c - 0x1A1u <= 0x0u;
    r |= c - 0x1A3u <= 0x0u;
    r |= c - 0x1A5u <= 0x0u;
    r |= c - 0x1A8u <= 0x0u;
    r |= c - 0x1AAu <= 0x1u;
    r |= c - 0x1ADu <= 0x0u;
    r |= c - 0x1B0u <= 0x0u;
    r |= c - 0x1B4u <= 0x0u;
    r |= c - 0x1B6u <= 0x0u;
    r |= c - 0x1B9u <= 0x1u;
    r |= c - 0x1BDu <= 0x2u;
    r |= c - 0x1C6u <= 0x0u;
    r |= c - 0x1C9u <= 0x0u;
    r |= c - 0x1CCu <= 0x0u;
    r |= c - 0x1CEu <= 0x0u;
    r |= c - 0x1D0u <= 0x0u;
    r |= c - 0x1D2u <= 0x0u;
    r |= c - 0x1D4u <= 0x0u;
    r |= c - 0x1D6u <= 0x0u;
    r |= c - 0x1D8u <= 0x0u;
    r |= c - 0x1DAu <= 0x0u;
    r |= c - 0x1DCu <= 0x1u;
    r |= c - 0x1DFu <= 0x0u;
    r |= c - 0x1E1u <= 0x0u;
    r |= c - 0x1E3u <= 0x0u;
    r |= c - 0x1E5u <= 0x0u;
    r |= c - 0x1E7u <= 0x0u;
    r |= c - 0x1E9u <= 0x0u;
    r |= c - 0x1EBu <= 0x0u;
    r |= c - 0x1EDu <= 0x0u;
    r |= c - 0x1EFu <= 0x1u;
    r |= c - 0x1F3u <= 0x0u;
    r |= c - 0x1F5u <= 0x0u;
    r |= c - 0x1F9u <= 0x0u;
    r |= c - 0x1FBu <= 0x0u;
    r |= c - 0x1FDu <= 0x0u;
    r |= c - 0x1FFu <= 0x0u;
    r |= c - 0x201u <= 0x0u;
    r |= c - 0x203u <= 0x0u;
    r |= c - 0x205u <= 0x0u;
    r |= c - 0x207u <= 0x0u;
    r |= c - 0x209u <= 0x0u;
    r |= c - 0x20Bu <= 0x0u;
    r |= c - 0x20Du <= 0x0u;
    r |= c - 0x20Fu <= 0x0u;
    r |= c - 0x211u <= 0x0u;
    r |= c - 0x213u <= 0x0u;
    r |= c - 0x215u <= 0x0u;
    r |= c - 0x217u <= 0x0u;
    r |= c - 0x219u <= 0x0u;
    r |= c - 0x21Bu <= 0x0u;
    r |= c - 0x21Du <= 0x0u;
    r |= c - 0x21Fu <= 0x0u;
    r |= c - 0x221u <= 0x0u;
    r |= c - 0x223u <= 0x0u;
    r |= c - 0x225u <= 0x0u;
    r |= c - 0x227u <= 0x0u;
    r |= c - 0x229u <= 0x0u;
    r |= c - 0x22Bu <= 0x0u;
    r |= c - 0x22Du <= 0x0u;
    r |= c - 0x22Fu <= 0x0u;
    r |= c - 0x231u <= 0x0u;
    r |= c - 0x233u <= 0x6u;
    r |= c - 0x23Cu <= 0x0u;
    r |= c - 0x23Fu <= 0x1u;
    r |= c - 0x242u <= 0x0u;
    r |= c - 0x247u <= 0x0u;
    r |= c - 0x249u <= 0x0u;
    r |= c - 0x24Bu <= 0x0u;
    r |= c - 0x24Du <= 0x0u;
    r |= c - 0x24Fu <= 0x44u;
    r |= c - 0x295u <= 0x1Au;
    r |= c - 0x371u <= 0x0u;
    r |= c - 0x373u <= 0x0u;
    r |= c - 0x377u <= 0x0u;
    r |= c - 0x37Bu <= 0x2u;
    r |= c - 0x390u <= 0x0u;
    r |= c - 0x3ACu <= 0x22u;
    r |= c - 0x3D0u <= 0x1u;
    r |= c - 0x3D5u <= 0x2u;
    r |= c - 0x3D9u <= 0x0u;
    r |= c - 0x3DBu <= 0x0u;
    r |= c - 0x3DDu <= 0x0u;
    r |= c - 0x3DFu <= 0x0u;
    r |= c - 0x3E1u <= 0x0u;
    r |= c - 0x3E3u <= 0x0u;
    r |= c - 0x3E5u <= 0x0u;
    r |= c - 0x3E7u <= 0x0u;
    r |= c - 0x3E9u <= 0x0u;
    r |= c - 0x3EBu <= 0x0u;
    r |= c - 0x3EDu <= 0x0u;
    r |= c - 0x3EFu <= 0x4u;
    r |= c - 0x3F5u <= 0x0u;
    r |= c - 0x3F8u <= 0x0u;
    r |= c - 0x3FBu <= 0x1u;
    r |= c - 0x430u <= 0x2Fu;
    r |= c - 0x461u <= 0x0u;
    r |= c - 0x463u <= 0x0u;
    r |= c - 0x465u <= 0x0u;
    r |= c - 0x467u <= 0x0u;
    r |= c - 0x469u <= 0x0u;
    r |= c - 0x46Bu <= 0x0u;
    r |= c - 0x46Du <= 0x0u;
    r |= c - 0x46Fu <= 0x0u;
    r |= c - 0x471u <= 0x0u;
    r |= c - 0x473u <= 0x0u;
    r |= c - 0x475u <= 0x0u;
    r |= c - 0x477u <= 0x0u;
    r |= c - 0x479u <= 0x0u;
    r |= c - 0x47Bu <= 0x0u;
    r |= c - 0x47Du <= 0x0u;
    r |= c - 0x47Fu <= 0x0u;
    r |= c - 0x481u <= 0x0u;
    r |= c - 0x48Bu <= 0x0u;
    r |= c - 0x48Du <= 0x0u;
    r |= c - 0x48Fu <= 0x0u;
    r |= c - 0x491u <= 0x0u;
    r |= c - 0x493u <= 0x0u;
    r |= c - 0x495u <= 0x0u;
    r |= c - 0x497u <= 0x0u;
    r |= c - 0x499u <= 0x0u;
    r |= c - 0x49Bu <= 0x0u;
    r |= c - 0x49Du <= 0x0u;
    r |= c - 0x49Fu <= 0x0u;
    r |= c - 0x4A1u <= 0x0u;
    r |= c - 0x4A3u <= 0x0u;
    r |= c - 0x4A5u <= 0x0u;
    r |= c - 0x4A7u <= 0x0u;
    r |= c - 0x4A9u <= 0x0u;
    r |= c - 0x4ABu <= 0x0u;
    r |= c - 0x4ADu <= 0x0u;
    r |= c - 0x4AFu <= 0x0u;
    r |= c - 0x4B1u <= 0x0u;
    r |= c - 0x4B3u <= 0x0u;
    r |= c - 0x4B5u <= 0x0u;
    r |= c - 0x4B7u <= 0x0u;
    r |= c - 0x4B9u <= 0x0u;
    r |= c - 0x4BBu <= 0x0u;
    r |= c - 0x4BDu <= 0x0u;
    r |= c - 0x4BFu <= 0x0u;
    r |= c - 0x4C2u <= 0x0u;
    r |= c - 0x4C4u <= 0x0u;
    r |= c - 0x4C6u <= 0x0u;
    r |= c - 0x4C8u <= 0x0u;
    r |= c - 0x4CAu <= 0x0u;
    r |= c - 0x4CCu <= 0x0u;
    r |= c - 0x4CEu <= 0x1u;
    r |= c - 0x4D1u <= 0x0u;
    r |= c - 0x4D3u <= 0x0u;
    r |= c - 0x4D5u <= 0x0u;
    r |= c - 0x4D7u <= 0x0u;
    r |= c - 0x4D9u <= 0x0u;
    r |= c - 0x4DBu <= 0x0u;
    r |= c - 0x4DDu <= 0x0u;
    r |= c - 0x4DFu <= 0x0u;
    r |= c - 0x4E1u <= 0x0u;
    r |= c - 0x4E3u <= 0x0u;
    r |= c - 0x4E5u <= 0x0u;
    r |= c - 0x4E7u <= 0x0u;
    r |= c - 0x4E9u <= 0x0u;
    r |= c - 0x4EBu <= 0x0u;
    r |= c - 0x4EDu <= 0x0u;
    r |= c - 0x4EFu <= 0x0u;
    r |= c - 0x4F1u <= 0x0u;
    r |= c - 0x4F3u <= 0x0u;
    r |= c - 0x4F5u <= 0x0u;
    r |= c - 0x4F7u <= 0x0u;
    r |= c - 0x4F9u <= 0x0u;
    r |= c - 0x4FBu <= 0x0u;
    r |= c - 0x4FDu <= 0x0u;
    r |= c - 0x4FFu <= 0x0u;
    r |= c - 0x501u <= 0x0u;
    r |= c - 0x503u <= 0x0u;
    r |= c - 0x505u <= 0x0u;
    r |= c - 0x507u <= 0x0u;
    r |= c - 0x509u <= 0x0u;
    r |= c - 0x50Bu <= 0x0u;
    r |= c - 0x50Du <= 0x0u;
    r |= c - 0x50Fu <= 0x0u;
    r |= c - 0x511u <= 0x0u;
    r |= c - 0x513u <= 0x0u;
    r |= c - 0x515u <= 0x0u;
    r |= c - 0x517u <= 0x0u;
    r |= c - 0x519u <= 0x0u;
    r |= c - 0x51Bu <= 0x0u;
    r |= c - 0x51Du <= 0x0u;
    r |= c - 0x51Fu <= 0x0u;
    r |= c - 0x521u <= 0x0u;
    r |= c - 0x523u <= 0x0u;
    r |= c - 0x525u <= 0x0u;
    r |= c - 0x527u <= 0x0u;
    r |= c - 0x529u <= 0x0u;
    r |= c - 0x52Bu <= 0x0u;
    r |= c - 0x52Du <= 0x0u;
    r |= c - 0x52Fu <= 0x0u;
    r |= c - 0x560u <= 0x28u;
    r |= c - 0x10D0u <= 0x2Au;
    r |= c - 0x10FDu <= 0x2u;
    r |= c - 0x13F8u <= 0x5u;
    r |= c - 0x1C80u <= 0x8u;
    r |= c - 0x1D00u <= 0x2Bu;
    r |= c - 0x1D6Bu <= 0xCu;
    r |= c - 0x1D79u <= 0x21u;
    r |= c - 0x1E01u <= 0x0u;
    r |= c - 0x1E03u <= 0x0u;
    r |= c - 0x1E05u <= 0x0u;
    r |= c - 0x1E07u <= 0x0u;
    r |= c - 0x1E09u <= 0x0u;
    r |= c - 0x1E0Bu <= 0x0u;
    r |= c - 0x1E0Du <= 0x0u;
    r |= c - 0x1E0Fu <= 0x0u;
    r |= c - 0x1E11u <= 0x0u;
    r |= c - 0x1E13u <= 0x0u;
    r |= c - 0x1E15u <= 0x0u;
    r |= c - 0x1E17u <= 0x0u;
    r |= c - 0x1E19u <= 0x0u;
    r |= c - 0x1E1Bu <= 0x0u;
    r |= c - 0x1E1Du <= 0x0u;
    r |= c - 0x1E1Fu <= 0x0u;
    r |= c - 0x1E21u <= 0x0u;
    r |= c - 0x1E23u <= 0x0u;
    r |= c - 0x1E25u <= 0x0u;
    r |= c - 0x1E27u <= 0x0u;
    r |= c - 0x1E29u <= 0x0u;
    r |= c - 0x1E2Bu <= 0x0u;
    r |= c - 0x1E2Du <= 0x0u;
    r |= c - 0x1E2Fu <= 0x0u;
    r |= c - 0x1E31u <= 0x0u;
    r |= c - 0x1E33u <= 0x0u;
    r |= c - 0x1E35u <= 0x0u;
    r |= c - 0x1E37u <= 0x0u;
    r |= c - 0x1E39u <= 0x0u;
    r |= c - 0x1E3Bu <= 0x0u;
    r |= c - 0x1E3Du <= 0x0u;
    r |= c - 0x1E3Fu <= 0x0u;
    r |= c - 0x1E41u <= 0x0u;
    r |= c - 0x1E43u <= 0x0u;
    r |= c - 0x1E45u <= 0x0u;
    r |= c - 0x1E47u <= 0x0u;
    r |= c - 0x1E49u <= 0x0u;
    r |= c - 0x1E4Bu <= 0x0u;
    r |= c - 0x1E4Du <= 0x0u;
    r |= c - 0x1E4Fu <= 0x0u;
    r |= c - 0x1E51u <= 0x0u;
    r |= c - 0x1E53u <= 0x0u;
    r |= c - 0x1E55u <= 0x0u;
    r |= c - 0x1E57u <= 0x0u;
    r |= c - 0x1E59u <= 0x0u;
    r |= c - 0x1E5Bu <= 0x0u;
    r |= c - 0x1E5Du <= 0x0u;
    r |= c - 0x1E5Fu <= 0x0u;
    r |= c - 0x1E61u <= 0x0u;
    r |= c - 0x1E63u <= 0x0u;
    r |= c - 0x1E65u <= 0x0u;
    r |= c - 0x1E67u <= 0x0u;
    r |= c - 0x1E69u <= 0x0u;
    r |= c - 0x1E6Bu <= 0x0u;
    r |= c - 0x1E6Du <= 0x0u;
    r |= c - 0x1E6Fu <= 0x0u;
    r |= c - 0x1E71u <= 0x0u;
    r |= c - 0x1E73u <= 0x0u;
    r |= c - 0x1E75u <= 0x0u;
    r |= c - 0x1E77u <= 0x0u;
    r |= c - 0x1E79u <= 0x0u;
    r |= c - 0x1E7Bu <= 0x0u;
    r |= c - 0x1E7Du <= 0x0u;
    r |= c - 0x1E7Fu <= 0x0u;
    r |= c - 0x1E81u <= 0x0u;
    r |= c - 0x1E83u <= 0x0u;
    r |= c - 0x1E85u <= 0x0u;
    r |= c - 0x1E87u <= 0x0u;
    r |= c - 0x1E89u <= 0x0u;
    r |= c - 0x1E8Bu <= 0x0u;
    r |= c - 0x1E8Du <= 0x0u;
    r |= c - 0x1E8Fu <= 0x0u;
    r |= c - 0x1E91u <= 0x0u;
    r |= c - 0x1E93u <= 0x0u;
    r |= c - 0x1E95u <= 0x8u;
    r |= c - 0x1E9Fu <= 0x0u;
    r |= c - 0x1EA1u <= 0x0u;
    r |= c - 0x1EA3u <= 0x0u;
    r |= c - 0x1EA5u <= 0x0u;
    r |= c - 0x1EA7u <= 0x0u;
    r |= c - 0x1EA9u <= 0x0u;
    r |= c - 0x1EABu <= 0x0u;
    r |= c - 0x1EADu <= 0x0u;
    r |= c - 0x1EAFu <= 0x0u;
    r |= c - 0x1EB1u <= 0x0u;
    r |= c - 0x1EB3u <= 0x0u;
    r |= c - 0x1EB5u <= 0x0u;
    r |= c - 0x1EB7u <= 0x0u;
    r |= c - 0x1EB9u <= 0x0u;
    r |= c - 0x1EBBu <= 0x0u;
    r |= c - 0x1EBDu <= 0x0u;
    r |= c - 0x1EBFu <= 0x0u;
    r |= c - 0x1EC1u <= 0x0u;
    r |= c - 0x1EC3u <= 0x0u;
    r |= c - 0x1EC5u <= 0x0u;
    r |= c - 0x1EC7u <= 0x0u;
    r |= c - 0x1EC9u <= 0x0u;
    r |= c - 0x1ECBu <= 0x0u;
    r |= c - 0x1ECDu <= 0x0u;
    r |= c - 0x1ECFu <= 0x0u;
    r |= c - 0x1ED1u <= 0x0u;
    r |= c - 0x1ED3u <= 0x0u;
    r |= c - 0x1ED5u <= 0x0u;
    r |= c - 0x1ED7u <= 0x0u;
    r |= c - 0x1ED9u <= 0x0u;
    r |= c - 0x1EDBu <= 0x0u;
    r |= c - 0x1EDDu <= 0x0u;
    r |= c - 0x1EDFu <= 0x0u;
    r |= c - 0x1EE1u <= 0x0u;
    r |= c - 0x1EE3u <= 0x0u;
    r |= c - 0x1EE5u <= 0x0u;
    r |= c - 0x1EE7u <= 0x0u;
    r |= c - 0x1EE9u <= 0x0u;
    r |= c - 0x1EEBu <= 0x0u;
    r |= c - 0x1EEDu <= 0x0u;
    r |= c - 0x1EEFu <= 0x0u;
    r |= c - 0x1EF1u <= 0x0u;
    r |= c - 0x1EF3u <= 0x0u;
    r |= c - 0x1EF5u <= 0x0u;
    r |= c - 0x1EF7u <= 0x0u;
    r |= c - 0x1EF9u <= 0x0u;
    r |= c - 0x1EFBu <= 0x0u;
    r |= c - 0x1EFDu <= 0x0u;
    r |= c - 0x1EFFu <= 0x8u;
    r |= c - 0x1F10u <= 0x5u;
    r |= c - 0x1F20u <= 0x7u;
    r |= c - 0x1F30u <= 0x7u;
    r |= c - 0x1F40u <= 0x5u;
    r |= c - 0x1F50u <= 0x7u;
    r |= c - 0x1F60u <= 0x7u;
    r |= c - 0x1F70u <= 0xDu;
    r |= c - 0x1F80u <= 0x7u;
    r |= c - 0x1F90u <= 0x7u;
    r |= c - 0x1FA0u <= 0x7u;
    r |= c - 0x1FB0u <= 0x4u;
    r |= c - 0x1FB6u <= 0x1u;
    r |= c - 0x1FBEu <= 0x0u;
    r |= c - 0x1FC2u <= 0x2u;
    r |= c - 0x1FC6u <= 0x1u;
    r |= c - 0x1FD0u <= 0x3u;
    r |= c - 0x1FD6u <= 0x1u;
    r |= c - 0x1FE0u <= 0x7u;
    r |= c - 0x1FF2u <= 0x2u;
    r |= c - 0x1FF6u <= 0x1u;
    r |= c - 0x210Au <= 0x0u;
    r |= c - 0x210Eu <= 0x1u;
    r |= c - 0x2113u <= 0x0u;
    r |= c - 0x212Fu <= 0x0u;
    r |= c - 0x2134u <= 0x0u;
    r |= c - 0x2139u <= 0x0u;
    r |= c - 0x213Cu <= 0x1u;
    r |= c - 0x2146u <= 0x3u;
    r |= c - 0x214Eu <= 0x0u;
    r |= c - 0x2184u <= 0x0u;
    r |= c - 0x2C30u <= 0x2Fu;
    r |= c - 0x2C61u <= 0x0u;
    r |= c - 0x2C65u <= 0x1u;
    r |= c - 0x2C68u <= 0x0u;
    r |= c - 0x2C6Au <= 0x0u;
    r |= c - 0x2C6Cu <= 0x0u;
    r |= c - 0x2C71u <= 0x0u;
    r |= c - 0x2C73u <= 0x1u;
    r |= c - 0x2C76u <= 0x5u;
    r |= c - 0x2C81u <= 0x0u;
    r |= c - 0x2C83u <= 0x0u;
    r |= c - 0x2C85u <= 0x0u;
    r |= c - 0x2C87u <= 0x0u;
    r |= c - 0x2C89u <= 0x0u;
    r |= c - 0x2C8Bu <= 0x0u;
    r |= c - 0x2C8Du <= 0x0u;
    r |= c - 0x2C8Fu <= 0x0u;
    r |= c - 0x2C91u <= 0x0u;
    r |= c - 0x2C93u <= 0x0u;
    r |= c - 0x2C95u <= 0x0u;
    r |= c - 0x2C97u <= 0x0u;
    r |= c - 0x2C99u <= 0x0u;
    r |= c - 0x2C9Bu <= 0x0u;
    r |= c - 0x2C9Du <= 0x0u;
    r |= c - 0x2C9Fu <= 0x0u;
    r |= c - 0x2CA1u <= 0x0u;
    r |= c - 0x2CA3u <= 0x0u;
    r |= c - 0x2CA5u <= 0x0u;
    r |= c - 0x2CA7u <= 0x0u;
    r |= c - 0x2CA9u <= 0x0u;
    r |= c - 0x2CABu <= 0x0u;
    r |= c - 0x2CADu <= 0x0u;
    r |= c - 0x2CAFu <= 0x0u;
    r |= c - 0x2CB1u <= 0x0u;
    r |= c - 0x2CB3u <= 0x0u;
    r |= c - 0x2CB5u <= 0x0u;
    r |= c - 0x2CB7u <= 0x0u;
    r |= c - 0x2CB9u <= 0x0u;
    r |= c - 0x2CBBu <= 0x0u;
    r |= c - 0x2CBDu <= 0x0u;
    r |= c - 0x2CBFu <= 0x0u;
    r |= c - 0x2CC1u <= 0x0u;
    r |= c - 0x2CC3u <= 0x0u;
    r |= c - 0x2CC5u <= 0x0u;
    r |= c - 0x2CC7u <= 0x0u;
    r |= c - 0x2CC9u <= 0x0u;
    r |= c - 0x2CCBu <= 0x0u;
    r |= c - 0x2CCDu <= 0x0u;
    r |= c - 0x2CCFu <= 0x0u;
    r |= c - 0x2CD1u <= 0x0u;
    r |= c - 0x2CD3u <= 0x0u;
    r |= c - 0x2CD5u <= 0x0u;
    r |= c - 0x2CD7u <= 0x0u;
    r |= c - 0x2CD9u <= 0x0u;
    r |= c - 0x2CDBu <= 0x0u;
    r |= c - 0x2CDDu <= 0x0u;
    r |= c - 0x2CDFu <= 0x0u;
    r |= c - 0x2CE1u <= 0x0u;
    r |= c - 0x2CE3u <= 0x1u;
    r |= c - 0x2CECu <= 0x0u;
    r |= c - 0x2CEEu <= 0x0u;
    r |= c - 0x2CF3u <= 0x0u;
    r |= c - 0x2D00u <= 0x25u;
    r |= c - 0x2D27u <= 0x0u;
    r |= c - 0x2D2Du <= 0x0u;
    r |= c - 0xA641u <= 0x0u;
    r |= c - 0xA643u <= 0x0u;
    r |= c - 0xA645u <= 0x0u;
    r |= c - 0xA647u <= 0x0u;
    r |= c - 0xA649u <= 0x0u;
    r |= c - 0xA64Bu <= 0x0u;
    r |= c - 0xA64Du <= 0x0u;
    r |= c - 0xA64Fu <= 0x0u;
    r |= c - 0xA651u <= 0x0u;
    r |= c - 0xA653u <= 0x0u;
    r |= c - 0xA655u <= 0x0u;
    r |= c - 0xA657u <= 0x0u;
    r |= c - 0xA659u <= 0x0u;
    r |= c - 0xA65Bu <= 0x0u;
    r |= c - 0xA65Du <= 0x0u;
    r |= c - 0xA65Fu <= 0x0u;
    r |= c - 0xA661u <= 0x0u;
    r |= c - 0xA663u <= 0x0u;
    r |= c - 0xA665u <= 0x0u;
    r |= c - 0xA667u <= 0x0u;
    r |= c - 0xA669u <= 0x0u;
    r |= c - 0xA66Bu <= 0x0u;
    r |= c - 0xA66Du <= 0x0u;
    r |= c - 0xA681u <= 0x0u;
    r |= c - 0xA683u <= 0x0u;
    r |= c - 0xA685u <= 0x0u;
    r |= c - 0xA687u <= 0x0u;
    r |= c - 0xA689u <= 0x0u;
    r |= c - 0xA68Bu <= 0x0u;
    r |= c - 0xA68Du <= 0x0u;
    r |= c - 0xA68Fu <= 0x0u;
    r |= c - 0xA691u <= 0x0u;
    r |= c - 0xA693u <= 0x0u;
    r |= c - 0xA695u <= 0x0u;
    r |= c - 0xA697u <= 0x0u;
    r |= c - 0xA699u <= 0x0u;
    r |= c - 0xA69Bu <= 0x0u;
    r |= c - 0xA723u <= 0x0u;
    r |= c - 0xA725u <= 0x0u;
    r |= c - 0xA727u <= 0x0u;
    r |= c - 0xA729u <= 0x0u;
    r |= c - 0xA72Bu <= 0x0u;
    r |= c - 0xA72Du <= 0x0u;
    r |= c - 0xA72Fu <= 0x2u;
    r |= c - 0xA733u <= 0x0u;
    r |= c - 0xA735u <= 0x0u;
    r |= c - 0xA737u <= 0x0u;
    r |= c - 0xA739u <= 0x0u;
    r |= c - 0xA73Bu <= 0x0u;
    r |= c - 0xA73Du <= 0x0u;
    r |= c - 0xA73Fu <= 0x0u;
    r |= c - 0xA741u <= 0x0u;
    r |= c - 0xA743u <= 0x0u;
    r |= c - 0xA745u <= 0x0u;
    r |= c - 0xA747u <= 0x0u;
    r |= c - 0xA749u <= 0x0u;
    r |= c - 0xA74Bu <= 0x0u;
    r |= c - 0xA74Du <= 0x0u;
    r |= c - 0xA74Fu <= 0x0u;
    r |= c - 0xA751u <= 0x0u;
    r |= c - 0xA753u <= 0x0u;
    r |= c - 0xA755u <= 0x0u;
    r |= c - 0xA757u <= 0x0u;
    r |= c - 0xA759u <= 0x0u;
    r |= c - 0xA75Bu <= 0x0u;
    r |= c - 0xA75Du <= 0x0u;
    r |= c - 0xA75Fu <= 0x0u;
    r |= c - 0xA761u <= 0x0u;
    r |= c - 0xA763u <= 0x0u;
    r |= c - 0xA765u <= 0x0u;
    r |= c - 0xA767u <= 0x0u;
    r |= c - 0xA769u <= 0x0u;
    r |= c - 0xA76Bu <= 0x0u;
    r |= c - 0xA76Du <= 0x0u;
    r |= c - 0xA76Fu <= 0x0u;
    r |= c - 0xA771u <= 0x7u;
    r |= c - 0xA77Au <= 0x0u;
    r |= c - 0xA77Cu <= 0x0u;
    r |= c - 0xA77Fu <= 0x0u;
    r |= c - 0xA781u <= 0x0u;
    r |= c - 0xA783u <= 0x0u;
    r |= c - 0xA785u <= 0x0u;
    r |= c - 0xA787u <= 0x0u;
    r |= c - 0xA78Cu <= 0x0u;
    r |= c - 0xA78Eu <= 0x0u;
    r |= c - 0xA791u <= 0x0u;
    r |= c - 0xA793u <= 0x2u;
    r |= c - 0xA797u <= 0x0u;
    r |= c - 0xA799u <= 0x0u;
    r |= c - 0xA79Bu <= 0x0u;
    r |= c - 0xA79Du <= 0x0u;
    r |= c - 0xA79Fu <= 0x0u;
    r |= c - 0xA7A1u <= 0x0u;
    r |= c - 0xA7A3u <= 0x0u;
    r |= c - 0xA7A5u <= 0x0u;
    r |= c - 0xA7A7u <= 0x0u;
    r |= c - 0xA7A9u <= 0x0u;
    r |= c - 0xA7AFu <= 0x0u;
    r |= c - 0xA7B5u <= 0x0u;
    r |= c - 0xA7B7u <= 0x0u;
    r |= c - 0xA7B9u <= 0x0u;
    r |= c - 0xA7BBu <= 0x0u;
    r |= c - 0xA7BDu <= 0x0u;
    r |= c - 0xA7BFu <= 0x0u;
    r |= c - 0xA7C1u <= 0x0u;
    r |= c - 0xA7C3u <= 0x0u;
    r |= c - 0xA7C8u <= 0x0u;
    r |= c - 0xA7CAu <= 0x0u;
    r |= c - 0xA7D1u <= 0x0u;
    r |= c - 0xA7D3u <= 0x0u;
    r |= c - 0xA7D5u <= 0x0u;
    r |= c - 0xA7D7u <= 0x0u;
    r |= c - 0xA7D9u <= 0x0u;
    r |= c - 0xA7F6u <= 0x0u;
    r |= c - 0xA7FAu <= 0x0u;
    r |= c - 0xAB30u <= 0x2Au;
    r |= c - 0xAB60u <= 0x8u;
    r |= c - 0xAB70u <= 0x4Fu;
    r |= c - 0xFB00u <= 0x6u;
    r |= c - 0xFB13u <= 0x4u;
    r |= c - 0xFF41u <= 0x19u;
    r |= c - 0x10428u <= 0x27u;
    r |= c - 0x104D8u <= 0x23u;
    r |= c - 0x10597u <= 0xAu;
    r |= c - 0x105A3u <= 0xEu;
    r |= c - 0x105B3u <= 0x6u;
    r |= c - 0x105BBu <= 0x1u;
    r |= c - 0x10CC0u <= 0x32u;
    r |= c - 0x118C0u <= 0x1Fu;
    r |= c - 0x16E60u <= 0x1Fu;
    r |= c - 0x1D41Au <= 0x19u;
    r |= c - 0x1D44Eu <= 0x6u;
    r |= c - 0x1D456u <= 0x11u;
    r |= c - 0x1D482u <= 0x19u;
    r |= c - 0x1D4B6u <= 0x3u;
    r |= c - 0x1D4BBu <= 0x0u;
    r |= c - 0x1D4BDu <= 0x6u;
    r |= c - 0x1D4C5u <= 0xAu;
    r |= c - 0x1D4EAu <= 0x19u;
    r |= c - 0x1D51Eu <= 0x19u;
    r |= c - 0x1D552u <= 0x19u;
    r |= c - 0x1D586u <= 0x19u;
    r |= c - 0x1D5BAu <= 0x19u;
    r |= c - 0x1D5EEu <= 0x19u;
    r |= c - 0x1D622u <= 0x19u;
    r |= c - 0x1D656u <= 0x19u;
    r |= c - 0x1D68Au <= 0x1Bu;
    r |= c - 0x1D6C2u <= 0x18u;
    r |= c - 0x1D6DCu <= 0x5u;
    r |= c - 0x1D6FCu <= 0x18u;
    r |= c - 0x1D716u <= 0x5u;
    r |= c - 0x1D736u <= 0x18u;
    r |= c - 0x1D750u <= 0x5u;
    r |= c - 0x1D770u <= 0x18u;
    r |= c - 0x1D78Au <= 0x5u;
    r |= c - 0x1D7AAu <= 0x18u;
    r |= c - 0x1D7C4u <= 0x5u;
    r |= c - 0x1D7CBu <= 0x0u;
    r |= c - 0x1DF00u <= 0x9u;
    r |= c - 0x1DF0Bu <= 0x13u;
    r |= c - 0x1DF25u <= 0x5u;
    r |= c - 0x1E922u <= 0x21u;
    return r;
}
