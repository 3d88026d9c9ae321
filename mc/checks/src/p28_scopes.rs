// Written by gen_scopes.py.
use super::*;

/// The modes and directions of the attributes of every field and variant.
pub const SETS: &[&[(&str, &str)]] = &[&[], &[("", "")], &[("", "e")], &[("", "d")], &[("B", "")], &[("B", "e")], &[("B", "d")], &[("T", "")], &[("T", "e")], &[("T", "d")], &[("C", "")], &[("C", "e")], &[("C", "d")], &[("", ""), ("", "e")], &[("", ""), ("", "d")], &[("", ""), ("B", "")], &[("", ""), ("B", "e")], &[("", ""), ("B", "d")], &[("", ""), ("T", "")], &[("", ""), ("T", "e")], &[("", ""), ("T", "d")], &[("", ""), ("C", "")], &[("", ""), ("C", "e")], &[("", ""), ("C", "d")], &[("", "e"), ("", "d")], &[("", "e"), ("B", "")], &[("", "e"), ("B", "e")], &[("", "e"), ("B", "d")], &[("", "e"), ("T", "")], &[("", "e"), ("T", "e")], &[("", "e"), ("T", "d")], &[("", "e"), ("C", "")], &[("", "e"), ("C", "e")], &[("", "e"), ("C", "d")], &[("", "d"), ("B", "")], &[("", "d"), ("B", "e")], &[("", "d"), ("B", "d")], &[("", "d"), ("T", "")], &[("", "d"), ("T", "e")], &[("", "d"), ("T", "d")], &[("", "d"), ("C", "")], &[("", "d"), ("C", "e")], &[("", "d"), ("C", "d")], &[("B", ""), ("B", "e")], &[("B", ""), ("B", "d")], &[("B", ""), ("T", "")], &[("B", ""), ("T", "e")], &[("B", ""), ("T", "d")], &[("B", ""), ("C", "")], &[("B", ""), ("C", "e")], &[("B", ""), ("C", "d")], &[("B", "e"), ("B", "d")], &[("B", "e"), ("T", "")], &[("B", "e"), ("T", "e")], &[("B", "e"), ("T", "d")], &[("B", "e"), ("C", "")], &[("B", "e"), ("C", "e")], &[("B", "e"), ("C", "d")], &[("B", "d"), ("T", "")], &[("B", "d"), ("T", "e")], &[("B", "d"), ("T", "d")], &[("B", "d"), ("C", "")], &[("B", "d"), ("C", "e")], &[("B", "d"), ("C", "d")], &[("T", ""), ("T", "e")], &[("T", ""), ("T", "d")], &[("T", ""), ("C", "")], &[("T", ""), ("C", "e")], &[("T", ""), ("C", "d")], &[("T", "e"), ("T", "d")], &[("T", "e"), ("C", "")], &[("T", "e"), ("C", "e")], &[("T", "e"), ("C", "d")], &[("T", "d"), ("C", "")], &[("T", "d"), ("C", "e")], &[("T", "d"), ("C", "d")], &[("C", ""), ("C", "e")], &[("C", ""), ("C", "d")], &[("C", "e"), ("C", "d")], &[("", ""), ("", "e"), ("", "d")], &[("", ""), ("", "e"), ("B", "")], &[("", ""), ("", "e"), ("B", "e")], &[("", ""), ("", "e"), ("B", "d")], &[("", ""), ("", "e"), ("T", "")], &[("", ""), ("", "e"), ("T", "e")], &[("", ""), ("", "e"), ("T", "d")], &[("", ""), ("", "e"), ("C", "")], &[("", ""), ("", "e"), ("C", "e")], &[("", ""), ("", "e"), ("C", "d")], &[("", ""), ("", "d"), ("B", "")], &[("", ""), ("", "d"), ("B", "e")], &[("", ""), ("", "d"), ("B", "d")], &[("", ""), ("", "d"), ("T", "")], &[("", ""), ("", "d"), ("T", "e")], &[("", ""), ("", "d"), ("T", "d")], &[("", ""), ("", "d"), ("C", "")], &[("", ""), ("", "d"), ("C", "e")], &[("", ""), ("", "d"), ("C", "d")], &[("", ""), ("B", ""), ("B", "e")], &[("", ""), ("B", ""), ("B", "d")], &[("", ""), ("B", ""), ("T", "")], &[("", ""), ("B", ""), ("T", "e")], &[("", ""), ("B", ""), ("T", "d")], &[("", ""), ("B", ""), ("C", "")], &[("", ""), ("B", ""), ("C", "e")], &[("", ""), ("B", ""), ("C", "d")], &[("", ""), ("B", "e"), ("B", "d")], &[("", ""), ("B", "e"), ("T", "")], &[("", ""), ("B", "e"), ("T", "e")], &[("", ""), ("B", "e"), ("T", "d")], &[("", ""), ("B", "e"), ("C", "")], &[("", ""), ("B", "e"), ("C", "e")], &[("", ""), ("B", "e"), ("C", "d")], &[("", ""), ("B", "d"), ("T", "")], &[("", ""), ("B", "d"), ("T", "e")], &[("", ""), ("B", "d"), ("T", "d")], &[("", ""), ("B", "d"), ("C", "")], &[("", ""), ("B", "d"), ("C", "e")], &[("", ""), ("B", "d"), ("C", "d")], &[("", ""), ("T", ""), ("T", "e")], &[("", ""), ("T", ""), ("T", "d")], &[("", ""), ("T", ""), ("C", "")], &[("", ""), ("T", ""), ("C", "e")], &[("", ""), ("T", ""), ("C", "d")], &[("", ""), ("T", "e"), ("T", "d")], &[("", ""), ("T", "e"), ("C", "")], &[("", ""), ("T", "e"), ("C", "e")], &[("", ""), ("T", "e"), ("C", "d")], &[("", ""), ("T", "d"), ("C", "")], &[("", ""), ("T", "d"), ("C", "e")], &[("", ""), ("T", "d"), ("C", "d")], &[("", ""), ("C", ""), ("C", "e")], &[("", ""), ("C", ""), ("C", "d")], &[("", ""), ("C", "e"), ("C", "d")], &[("", "e"), ("", "d"), ("B", "")], &[("", "e"), ("", "d"), ("B", "e")], &[("", "e"), ("", "d"), ("B", "d")], &[("", "e"), ("", "d"), ("T", "")], &[("", "e"), ("", "d"), ("T", "e")], &[("", "e"), ("", "d"), ("T", "d")], &[("", "e"), ("", "d"), ("C", "")], &[("", "e"), ("", "d"), ("C", "e")], &[("", "e"), ("", "d"), ("C", "d")], &[("", "e"), ("B", ""), ("B", "e")], &[("", "e"), ("B", ""), ("B", "d")], &[("", "e"), ("B", ""), ("T", "")], &[("", "e"), ("B", ""), ("T", "e")], &[("", "e"), ("B", ""), ("T", "d")], &[("", "e"), ("B", ""), ("C", "")], &[("", "e"), ("B", ""), ("C", "e")], &[("", "e"), ("B", ""), ("C", "d")], &[("", "e"), ("B", "e"), ("B", "d")], &[("", "e"), ("B", "e"), ("T", "")], &[("", "e"), ("B", "e"), ("T", "e")], &[("", "e"), ("B", "e"), ("T", "d")], &[("", "e"), ("B", "e"), ("C", "")], &[("", "e"), ("B", "e"), ("C", "e")], &[("", "e"), ("B", "e"), ("C", "d")], &[("", "e"), ("B", "d"), ("T", "")], &[("", "e"), ("B", "d"), ("T", "e")], &[("", "e"), ("B", "d"), ("T", "d")], &[("", "e"), ("B", "d"), ("C", "")], &[("", "e"), ("B", "d"), ("C", "e")], &[("", "e"), ("B", "d"), ("C", "d")], &[("", "e"), ("T", ""), ("T", "e")], &[("", "e"), ("T", ""), ("T", "d")], &[("", "e"), ("T", ""), ("C", "")], &[("", "e"), ("T", ""), ("C", "e")], &[("", "e"), ("T", ""), ("C", "d")], &[("", "e"), ("T", "e"), ("T", "d")], &[("", "e"), ("T", "e"), ("C", "")], &[("", "e"), ("T", "e"), ("C", "e")], &[("", "e"), ("T", "e"), ("C", "d")], &[("", "e"), ("T", "d"), ("C", "")], &[("", "e"), ("T", "d"), ("C", "e")], &[("", "e"), ("T", "d"), ("C", "d")], &[("", "e"), ("C", ""), ("C", "e")], &[("", "e"), ("C", ""), ("C", "d")], &[("", "e"), ("C", "e"), ("C", "d")], &[("", "d"), ("B", ""), ("B", "e")], &[("", "d"), ("B", ""), ("B", "d")], &[("", "d"), ("B", ""), ("T", "")], &[("", "d"), ("B", ""), ("T", "e")], &[("", "d"), ("B", ""), ("T", "d")], &[("", "d"), ("B", ""), ("C", "")], &[("", "d"), ("B", ""), ("C", "e")], &[("", "d"), ("B", ""), ("C", "d")], &[("", "d"), ("B", "e"), ("B", "d")], &[("", "d"), ("B", "e"), ("T", "")], &[("", "d"), ("B", "e"), ("T", "e")], &[("", "d"), ("B", "e"), ("T", "d")], &[("", "d"), ("B", "e"), ("C", "")], &[("", "d"), ("B", "e"), ("C", "e")], &[("", "d"), ("B", "e"), ("C", "d")], &[("", "d"), ("B", "d"), ("T", "")], &[("", "d"), ("B", "d"), ("T", "e")], &[("", "d"), ("B", "d"), ("T", "d")], &[("", "d"), ("B", "d"), ("C", "")], &[("", "d"), ("B", "d"), ("C", "e")], &[("", "d"), ("B", "d"), ("C", "d")], &[("", "d"), ("T", ""), ("T", "e")], &[("", "d"), ("T", ""), ("T", "d")], &[("", "d"), ("T", ""), ("C", "")], &[("", "d"), ("T", ""), ("C", "e")], &[("", "d"), ("T", ""), ("C", "d")], &[("", "d"), ("T", "e"), ("T", "d")], &[("", "d"), ("T", "e"), ("C", "")], &[("", "d"), ("T", "e"), ("C", "e")], &[("", "d"), ("T", "e"), ("C", "d")], &[("", "d"), ("T", "d"), ("C", "")], &[("", "d"), ("T", "d"), ("C", "e")], &[("", "d"), ("T", "d"), ("C", "d")], &[("", "d"), ("C", ""), ("C", "e")], &[("", "d"), ("C", ""), ("C", "d")], &[("", "d"), ("C", "e"), ("C", "d")], &[("B", ""), ("B", "e"), ("B", "d")], &[("B", ""), ("B", "e"), ("T", "")], &[("B", ""), ("B", "e"), ("T", "e")], &[("B", ""), ("B", "e"), ("T", "d")], &[("B", ""), ("B", "e"), ("C", "")], &[("B", ""), ("B", "e"), ("C", "e")], &[("B", ""), ("B", "e"), ("C", "d")], &[("B", ""), ("B", "d"), ("T", "")], &[("B", ""), ("B", "d"), ("T", "e")], &[("B", ""), ("B", "d"), ("T", "d")], &[("B", ""), ("B", "d"), ("C", "")], &[("B", ""), ("B", "d"), ("C", "e")], &[("B", ""), ("B", "d"), ("C", "d")], &[("B", ""), ("T", ""), ("T", "e")], &[("B", ""), ("T", ""), ("T", "d")], &[("B", ""), ("T", ""), ("C", "")], &[("B", ""), ("T", ""), ("C", "e")], &[("B", ""), ("T", ""), ("C", "d")], &[("B", ""), ("T", "e"), ("T", "d")], &[("B", ""), ("T", "e"), ("C", "")], &[("B", ""), ("T", "e"), ("C", "e")], &[("B", ""), ("T", "e"), ("C", "d")], &[("B", ""), ("T", "d"), ("C", "")], &[("B", ""), ("T", "d"), ("C", "e")], &[("B", ""), ("T", "d"), ("C", "d")], &[("B", ""), ("C", ""), ("C", "e")], &[("B", ""), ("C", ""), ("C", "d")], &[("B", ""), ("C", "e"), ("C", "d")], &[("B", "e"), ("B", "d"), ("T", "")], &[("B", "e"), ("B", "d"), ("T", "e")], &[("B", "e"), ("B", "d"), ("T", "d")], &[("B", "e"), ("B", "d"), ("C", "")], &[("B", "e"), ("B", "d"), ("C", "e")], &[("B", "e"), ("B", "d"), ("C", "d")], &[("B", "e"), ("T", ""), ("T", "e")], &[("B", "e"), ("T", ""), ("T", "d")], &[("B", "e"), ("T", ""), ("C", "")], &[("B", "e"), ("T", ""), ("C", "e")], &[("B", "e"), ("T", ""), ("C", "d")], &[("B", "e"), ("T", "e"), ("T", "d")], &[("B", "e"), ("T", "e"), ("C", "")], &[("B", "e"), ("T", "e"), ("C", "e")], &[("B", "e"), ("T", "e"), ("C", "d")], &[("B", "e"), ("T", "d"), ("C", "")], &[("B", "e"), ("T", "d"), ("C", "e")], &[("B", "e"), ("T", "d"), ("C", "d")], &[("B", "e"), ("C", ""), ("C", "e")], &[("B", "e"), ("C", ""), ("C", "d")], &[("B", "e"), ("C", "e"), ("C", "d")], &[("B", "d"), ("T", ""), ("T", "e")], &[("B", "d"), ("T", ""), ("T", "d")], &[("B", "d"), ("T", ""), ("C", "")], &[("B", "d"), ("T", ""), ("C", "e")], &[("B", "d"), ("T", ""), ("C", "d")], &[("B", "d"), ("T", "e"), ("T", "d")], &[("B", "d"), ("T", "e"), ("C", "")], &[("B", "d"), ("T", "e"), ("C", "e")], &[("B", "d"), ("T", "e"), ("C", "d")], &[("B", "d"), ("T", "d"), ("C", "")], &[("B", "d"), ("T", "d"), ("C", "e")], &[("B", "d"), ("T", "d"), ("C", "d")], &[("B", "d"), ("C", ""), ("C", "e")], &[("B", "d"), ("C", ""), ("C", "d")], &[("B", "d"), ("C", "e"), ("C", "d")], &[("T", ""), ("T", "e"), ("T", "d")], &[("T", ""), ("T", "e"), ("C", "")], &[("T", ""), ("T", "e"), ("C", "e")], &[("T", ""), ("T", "e"), ("C", "d")], &[("T", ""), ("T", "d"), ("C", "")], &[("T", ""), ("T", "d"), ("C", "e")], &[("T", ""), ("T", "d"), ("C", "d")], &[("T", ""), ("C", ""), ("C", "e")], &[("T", ""), ("C", ""), ("C", "d")], &[("T", ""), ("C", "e"), ("C", "d")], &[("T", "e"), ("T", "d"), ("C", "")], &[("T", "e"), ("T", "d"), ("C", "e")], &[("T", "e"), ("T", "d"), ("C", "d")], &[("T", "e"), ("C", ""), ("C", "e")], &[("T", "e"), ("C", ""), ("C", "d")], &[("T", "e"), ("C", "e"), ("C", "d")], &[("T", "d"), ("C", ""), ("C", "e")], &[("T", "d"), ("C", ""), ("C", "d")], &[("T", "d"), ("C", "e"), ("C", "d")], &[("C", ""), ("C", "e"), ("C", "d")]];
#[derive(Debug, Clone, PartialEq, Default, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub struct Fields0 {
     #[musli(default, skip_encoding_if = zero)] pub f0: u8,
    #[musli(name = "1")] #[musli(default, skip_encoding_if = zero)] pub f1: u8,
    #[musli(encode_only, name = "2e")] #[musli(default, skip_encoding_if = zero)] pub f2: u8,
    #[musli(decode_only, name = "3d")] #[musli(default, skip_encoding_if = zero)] pub f3: u8,
    #[musli(Binary, name = "4B")] #[musli(default, skip_encoding_if = zero)] pub f4: u8,
    #[musli(Binary, encode_only, name = "5Be")] #[musli(default, skip_encoding_if = zero)] pub f5: u8,
    #[musli(Binary, decode_only, name = "6Bd")] #[musli(default, skip_encoding_if = zero)] pub f6: u8,
    #[musli(Text, name = "7T")] #[musli(default, skip_encoding_if = zero)] pub f7: u8,
    #[musli(Text, encode_only, name = "8Te")] #[musli(default, skip_encoding_if = zero)] pub f8: u8,
    #[musli(Text, decode_only, name = "9Td")] #[musli(default, skip_encoding_if = zero)] pub f9: u8,
    #[musli(mode = Custom, name = "10C")] #[musli(default, skip_encoding_if = zero)] pub f10: u8,
    #[musli(mode = Custom, encode_only, name = "11Ce")] #[musli(default, skip_encoding_if = zero)] pub f11: u8,
    #[musli(mode = Custom, decode_only, name = "12Cd")] #[musli(default, skip_encoding_if = zero)] pub f12: u8,
    #[musli(name = "13")] #[musli(encode_only, name = "13e")] #[musli(default, skip_encoding_if = zero)] pub f13: u8,
    #[musli(name = "14")] #[musli(decode_only, name = "14d")] #[musli(default, skip_encoding_if = zero)] pub f14: u8,
    #[musli(name = "15")] #[musli(Binary, name = "15B")] #[musli(default, skip_encoding_if = zero)] pub f15: u8,
    #[musli(name = "16")] #[musli(Binary, encode_only, name = "16Be")] #[musli(default, skip_encoding_if = zero)] pub f16: u8,
    #[musli(name = "17")] #[musli(Binary, decode_only, name = "17Bd")] #[musli(default, skip_encoding_if = zero)] pub f17: u8,
    #[musli(name = "18")] #[musli(Text, name = "18T")] #[musli(default, skip_encoding_if = zero)] pub f18: u8,
    #[musli(name = "19")] #[musli(Text, encode_only, name = "19Te")] #[musli(default, skip_encoding_if = zero)] pub f19: u8,
    #[musli(name = "20")] #[musli(Text, decode_only, name = "20Td")] #[musli(default, skip_encoding_if = zero)] pub f20: u8,
    #[musli(name = "21")] #[musli(mode = Custom, name = "21C")] #[musli(default, skip_encoding_if = zero)] pub f21: u8,
    #[musli(name = "22")] #[musli(mode = Custom, encode_only, name = "22Ce")] #[musli(default, skip_encoding_if = zero)] pub f22: u8,
    #[musli(name = "23")] #[musli(mode = Custom, decode_only, name = "23Cd")] #[musli(default, skip_encoding_if = zero)] pub f23: u8,
    #[musli(encode_only, name = "24e")] #[musli(decode_only, name = "24d")] #[musli(default, skip_encoding_if = zero)] pub f24: u8,
    #[musli(encode_only, name = "25e")] #[musli(Binary, name = "25B")] #[musli(default, skip_encoding_if = zero)] pub f25: u8,
    #[musli(encode_only, name = "26e")] #[musli(Binary, encode_only, name = "26Be")] #[musli(default, skip_encoding_if = zero)] pub f26: u8,
    #[musli(encode_only, name = "27e")] #[musli(Binary, decode_only, name = "27Bd")] #[musli(default, skip_encoding_if = zero)] pub f27: u8,
    #[musli(encode_only, name = "28e")] #[musli(Text, name = "28T")] #[musli(default, skip_encoding_if = zero)] pub f28: u8,
    #[musli(encode_only, name = "29e")] #[musli(Text, encode_only, name = "29Te")] #[musli(default, skip_encoding_if = zero)] pub f29: u8,
    #[musli(encode_only, name = "30e")] #[musli(Text, decode_only, name = "30Td")] #[musli(default, skip_encoding_if = zero)] pub f30: u8,
    #[musli(encode_only, name = "31e")] #[musli(mode = Custom, name = "31C")] #[musli(default, skip_encoding_if = zero)] pub f31: u8,
    #[musli(encode_only, name = "32e")] #[musli(mode = Custom, encode_only, name = "32Ce")] #[musli(default, skip_encoding_if = zero)] pub f32: u8,
    #[musli(encode_only, name = "33e")] #[musli(mode = Custom, decode_only, name = "33Cd")] #[musli(default, skip_encoding_if = zero)] pub f33: u8,
    #[musli(decode_only, name = "34d")] #[musli(Binary, name = "34B")] #[musli(default, skip_encoding_if = zero)] pub f34: u8,
    #[musli(decode_only, name = "35d")] #[musli(Binary, encode_only, name = "35Be")] #[musli(default, skip_encoding_if = zero)] pub f35: u8,
    #[musli(decode_only, name = "36d")] #[musli(Binary, decode_only, name = "36Bd")] #[musli(default, skip_encoding_if = zero)] pub f36: u8,
    #[musli(decode_only, name = "37d")] #[musli(Text, name = "37T")] #[musli(default, skip_encoding_if = zero)] pub f37: u8,
    #[musli(decode_only, name = "38d")] #[musli(Text, encode_only, name = "38Te")] #[musli(default, skip_encoding_if = zero)] pub f38: u8,
    #[musli(decode_only, name = "39d")] #[musli(Text, decode_only, name = "39Td")] #[musli(default, skip_encoding_if = zero)] pub f39: u8,
    #[musli(decode_only, name = "40d")] #[musli(mode = Custom, name = "40C")] #[musli(default, skip_encoding_if = zero)] pub f40: u8,
    #[musli(decode_only, name = "41d")] #[musli(mode = Custom, encode_only, name = "41Ce")] #[musli(default, skip_encoding_if = zero)] pub f41: u8,
    #[musli(decode_only, name = "42d")] #[musli(mode = Custom, decode_only, name = "42Cd")] #[musli(default, skip_encoding_if = zero)] pub f42: u8,
    #[musli(Binary, name = "43B")] #[musli(Binary, encode_only, name = "43Be")] #[musli(default, skip_encoding_if = zero)] pub f43: u8,
    #[musli(Binary, name = "44B")] #[musli(Binary, decode_only, name = "44Bd")] #[musli(default, skip_encoding_if = zero)] pub f44: u8,
    #[musli(Binary, name = "45B")] #[musli(Text, name = "45T")] #[musli(default, skip_encoding_if = zero)] pub f45: u8,
    #[musli(Binary, name = "46B")] #[musli(Text, encode_only, name = "46Te")] #[musli(default, skip_encoding_if = zero)] pub f46: u8,
    #[musli(Binary, name = "47B")] #[musli(Text, decode_only, name = "47Td")] #[musli(default, skip_encoding_if = zero)] pub f47: u8,
    #[musli(Binary, name = "48B")] #[musli(mode = Custom, name = "48C")] #[musli(default, skip_encoding_if = zero)] pub f48: u8,
    #[musli(Binary, name = "49B")] #[musli(mode = Custom, encode_only, name = "49Ce")] #[musli(default, skip_encoding_if = zero)] pub f49: u8,
    #[musli(Binary, name = "50B")] #[musli(mode = Custom, decode_only, name = "50Cd")] #[musli(default, skip_encoding_if = zero)] pub f50: u8,
    #[musli(Binary, encode_only, name = "51Be")] #[musli(Binary, decode_only, name = "51Bd")] #[musli(default, skip_encoding_if = zero)] pub f51: u8,
    #[musli(Binary, encode_only, name = "52Be")] #[musli(Text, name = "52T")] #[musli(default, skip_encoding_if = zero)] pub f52: u8,
    #[musli(Binary, encode_only, name = "53Be")] #[musli(Text, encode_only, name = "53Te")] #[musli(default, skip_encoding_if = zero)] pub f53: u8,
    #[musli(Binary, encode_only, name = "54Be")] #[musli(Text, decode_only, name = "54Td")] #[musli(default, skip_encoding_if = zero)] pub f54: u8,
    #[musli(Binary, encode_only, name = "55Be")] #[musli(mode = Custom, name = "55C")] #[musli(default, skip_encoding_if = zero)] pub f55: u8,
    #[musli(Binary, encode_only, name = "56Be")] #[musli(mode = Custom, encode_only, name = "56Ce")] #[musli(default, skip_encoding_if = zero)] pub f56: u8,
    #[musli(Binary, encode_only, name = "57Be")] #[musli(mode = Custom, decode_only, name = "57Cd")] #[musli(default, skip_encoding_if = zero)] pub f57: u8,
    #[musli(Binary, decode_only, name = "58Bd")] #[musli(Text, name = "58T")] #[musli(default, skip_encoding_if = zero)] pub f58: u8,
    #[musli(Binary, decode_only, name = "59Bd")] #[musli(Text, encode_only, name = "59Te")] #[musli(default, skip_encoding_if = zero)] pub f59: u8,
}
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub enum Unit0 {
     f0,
    #[musli(name = "1")] f1,
    #[musli(encode_only, name = "2e")] f2,
    #[musli(decode_only, name = "3d")] f3,
    #[musli(Binary, name = "4B")] f4,
    #[musli(Binary, encode_only, name = "5Be")] f5,
    #[musli(Binary, decode_only, name = "6Bd")] f6,
    #[musli(Text, name = "7T")] f7,
    #[musli(Text, encode_only, name = "8Te")] f8,
    #[musli(Text, decode_only, name = "9Td")] f9,
    #[musli(mode = Custom, name = "10C")] f10,
    #[musli(mode = Custom, encode_only, name = "11Ce")] f11,
    #[musli(mode = Custom, decode_only, name = "12Cd")] f12,
    #[musli(name = "13")] #[musli(encode_only, name = "13e")] f13,
    #[musli(name = "14")] #[musli(decode_only, name = "14d")] f14,
    #[musli(name = "15")] #[musli(Binary, name = "15B")] f15,
    #[musli(name = "16")] #[musli(Binary, encode_only, name = "16Be")] f16,
    #[musli(name = "17")] #[musli(Binary, decode_only, name = "17Bd")] f17,
    #[musli(name = "18")] #[musli(Text, name = "18T")] f18,
    #[musli(name = "19")] #[musli(Text, encode_only, name = "19Te")] f19,
    #[musli(name = "20")] #[musli(Text, decode_only, name = "20Td")] f20,
    #[musli(name = "21")] #[musli(mode = Custom, name = "21C")] f21,
    #[musli(name = "22")] #[musli(mode = Custom, encode_only, name = "22Ce")] f22,
    #[musli(name = "23")] #[musli(mode = Custom, decode_only, name = "23Cd")] f23,
    #[musli(encode_only, name = "24e")] #[musli(decode_only, name = "24d")] f24,
    #[musli(encode_only, name = "25e")] #[musli(Binary, name = "25B")] f25,
    #[musli(encode_only, name = "26e")] #[musli(Binary, encode_only, name = "26Be")] f26,
    #[musli(encode_only, name = "27e")] #[musli(Binary, decode_only, name = "27Bd")] f27,
    #[musli(encode_only, name = "28e")] #[musli(Text, name = "28T")] f28,
    #[musli(encode_only, name = "29e")] #[musli(Text, encode_only, name = "29Te")] f29,
    #[musli(encode_only, name = "30e")] #[musli(Text, decode_only, name = "30Td")] f30,
    #[musli(encode_only, name = "31e")] #[musli(mode = Custom, name = "31C")] f31,
    #[musli(encode_only, name = "32e")] #[musli(mode = Custom, encode_only, name = "32Ce")] f32,
    #[musli(encode_only, name = "33e")] #[musli(mode = Custom, decode_only, name = "33Cd")] f33,
    #[musli(decode_only, name = "34d")] #[musli(Binary, name = "34B")] f34,
    #[musli(decode_only, name = "35d")] #[musli(Binary, encode_only, name = "35Be")] f35,
    #[musli(decode_only, name = "36d")] #[musli(Binary, decode_only, name = "36Bd")] f36,
    #[musli(decode_only, name = "37d")] #[musli(Text, name = "37T")] f37,
    #[musli(decode_only, name = "38d")] #[musli(Text, encode_only, name = "38Te")] f38,
    #[musli(decode_only, name = "39d")] #[musli(Text, decode_only, name = "39Td")] f39,
    #[musli(decode_only, name = "40d")] #[musli(mode = Custom, name = "40C")] f40,
    #[musli(decode_only, name = "41d")] #[musli(mode = Custom, encode_only, name = "41Ce")] f41,
    #[musli(decode_only, name = "42d")] #[musli(mode = Custom, decode_only, name = "42Cd")] f42,
    #[musli(Binary, name = "43B")] #[musli(Binary, encode_only, name = "43Be")] f43,
    #[musli(Binary, name = "44B")] #[musli(Binary, decode_only, name = "44Bd")] f44,
    #[musli(Binary, name = "45B")] #[musli(Text, name = "45T")] f45,
    #[musli(Binary, name = "46B")] #[musli(Text, encode_only, name = "46Te")] f46,
    #[musli(Binary, name = "47B")] #[musli(Text, decode_only, name = "47Td")] f47,
    #[musli(Binary, name = "48B")] #[musli(mode = Custom, name = "48C")] f48,
    #[musli(Binary, name = "49B")] #[musli(mode = Custom, encode_only, name = "49Ce")] f49,
    #[musli(Binary, name = "50B")] #[musli(mode = Custom, decode_only, name = "50Cd")] f50,
    #[musli(Binary, encode_only, name = "51Be")] #[musli(Binary, decode_only, name = "51Bd")] f51,
    #[musli(Binary, encode_only, name = "52Be")] #[musli(Text, name = "52T")] f52,
    #[musli(Binary, encode_only, name = "53Be")] #[musli(Text, encode_only, name = "53Te")] f53,
    #[musli(Binary, encode_only, name = "54Be")] #[musli(Text, decode_only, name = "54Td")] f54,
    #[musli(Binary, encode_only, name = "55Be")] #[musli(mode = Custom, name = "55C")] f55,
    #[musli(Binary, encode_only, name = "56Be")] #[musli(mode = Custom, encode_only, name = "56Ce")] f56,
    #[musli(Binary, encode_only, name = "57Be")] #[musli(mode = Custom, decode_only, name = "57Cd")] f57,
    #[musli(Binary, decode_only, name = "58Bd")] #[musli(Text, name = "58T")] f58,
    #[musli(Binary, decode_only, name = "59Bd")] #[musli(Text, encode_only, name = "59Te")] f59,
}
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub enum Full0 {
     f0 { x: u8 },
    #[musli(name = "1")] f1 { x: u8 },
    #[musli(encode_only, name = "2e")] f2 { x: u8 },
    #[musli(decode_only, name = "3d")] f3 { x: u8 },
    #[musli(Binary, name = "4B")] f4 { x: u8 },
    #[musli(Binary, encode_only, name = "5Be")] f5 { x: u8 },
    #[musli(Binary, decode_only, name = "6Bd")] f6 { x: u8 },
    #[musli(Text, name = "7T")] f7 { x: u8 },
    #[musli(Text, encode_only, name = "8Te")] f8 { x: u8 },
    #[musli(Text, decode_only, name = "9Td")] f9 { x: u8 },
    #[musli(mode = Custom, name = "10C")] f10 { x: u8 },
    #[musli(mode = Custom, encode_only, name = "11Ce")] f11 { x: u8 },
    #[musli(mode = Custom, decode_only, name = "12Cd")] f12 { x: u8 },
    #[musli(name = "13")] #[musli(encode_only, name = "13e")] f13 { x: u8 },
    #[musli(name = "14")] #[musli(decode_only, name = "14d")] f14 { x: u8 },
    #[musli(name = "15")] #[musli(Binary, name = "15B")] f15 { x: u8 },
    #[musli(name = "16")] #[musli(Binary, encode_only, name = "16Be")] f16 { x: u8 },
    #[musli(name = "17")] #[musli(Binary, decode_only, name = "17Bd")] f17 { x: u8 },
    #[musli(name = "18")] #[musli(Text, name = "18T")] f18 { x: u8 },
    #[musli(name = "19")] #[musli(Text, encode_only, name = "19Te")] f19 { x: u8 },
    #[musli(name = "20")] #[musli(Text, decode_only, name = "20Td")] f20 { x: u8 },
    #[musli(name = "21")] #[musli(mode = Custom, name = "21C")] f21 { x: u8 },
    #[musli(name = "22")] #[musli(mode = Custom, encode_only, name = "22Ce")] f22 { x: u8 },
    #[musli(name = "23")] #[musli(mode = Custom, decode_only, name = "23Cd")] f23 { x: u8 },
    #[musli(encode_only, name = "24e")] #[musli(decode_only, name = "24d")] f24 { x: u8 },
    #[musli(encode_only, name = "25e")] #[musli(Binary, name = "25B")] f25 { x: u8 },
    #[musli(encode_only, name = "26e")] #[musli(Binary, encode_only, name = "26Be")] f26 { x: u8 },
    #[musli(encode_only, name = "27e")] #[musli(Binary, decode_only, name = "27Bd")] f27 { x: u8 },
    #[musli(encode_only, name = "28e")] #[musli(Text, name = "28T")] f28 { x: u8 },
    #[musli(encode_only, name = "29e")] #[musli(Text, encode_only, name = "29Te")] f29 { x: u8 },
    #[musli(encode_only, name = "30e")] #[musli(Text, decode_only, name = "30Td")] f30 { x: u8 },
    #[musli(encode_only, name = "31e")] #[musli(mode = Custom, name = "31C")] f31 { x: u8 },
    #[musli(encode_only, name = "32e")] #[musli(mode = Custom, encode_only, name = "32Ce")] f32 { x: u8 },
    #[musli(encode_only, name = "33e")] #[musli(mode = Custom, decode_only, name = "33Cd")] f33 { x: u8 },
    #[musli(decode_only, name = "34d")] #[musli(Binary, name = "34B")] f34 { x: u8 },
    #[musli(decode_only, name = "35d")] #[musli(Binary, encode_only, name = "35Be")] f35 { x: u8 },
    #[musli(decode_only, name = "36d")] #[musli(Binary, decode_only, name = "36Bd")] f36 { x: u8 },
    #[musli(decode_only, name = "37d")] #[musli(Text, name = "37T")] f37 { x: u8 },
    #[musli(decode_only, name = "38d")] #[musli(Text, encode_only, name = "38Te")] f38 { x: u8 },
    #[musli(decode_only, name = "39d")] #[musli(Text, decode_only, name = "39Td")] f39 { x: u8 },
    #[musli(decode_only, name = "40d")] #[musli(mode = Custom, name = "40C")] f40 { x: u8 },
    #[musli(decode_only, name = "41d")] #[musli(mode = Custom, encode_only, name = "41Ce")] f41 { x: u8 },
    #[musli(decode_only, name = "42d")] #[musli(mode = Custom, decode_only, name = "42Cd")] f42 { x: u8 },
    #[musli(Binary, name = "43B")] #[musli(Binary, encode_only, name = "43Be")] f43 { x: u8 },
    #[musli(Binary, name = "44B")] #[musli(Binary, decode_only, name = "44Bd")] f44 { x: u8 },
    #[musli(Binary, name = "45B")] #[musli(Text, name = "45T")] f45 { x: u8 },
    #[musli(Binary, name = "46B")] #[musli(Text, encode_only, name = "46Te")] f46 { x: u8 },
    #[musli(Binary, name = "47B")] #[musli(Text, decode_only, name = "47Td")] f47 { x: u8 },
    #[musli(Binary, name = "48B")] #[musli(mode = Custom, name = "48C")] f48 { x: u8 },
    #[musli(Binary, name = "49B")] #[musli(mode = Custom, encode_only, name = "49Ce")] f49 { x: u8 },
    #[musli(Binary, name = "50B")] #[musli(mode = Custom, decode_only, name = "50Cd")] f50 { x: u8 },
    #[musli(Binary, encode_only, name = "51Be")] #[musli(Binary, decode_only, name = "51Bd")] f51 { x: u8 },
    #[musli(Binary, encode_only, name = "52Be")] #[musli(Text, name = "52T")] f52 { x: u8 },
    #[musli(Binary, encode_only, name = "53Be")] #[musli(Text, encode_only, name = "53Te")] f53 { x: u8 },
    #[musli(Binary, encode_only, name = "54Be")] #[musli(Text, decode_only, name = "54Td")] f54 { x: u8 },
    #[musli(Binary, encode_only, name = "55Be")] #[musli(mode = Custom, name = "55C")] f55 { x: u8 },
    #[musli(Binary, encode_only, name = "56Be")] #[musli(mode = Custom, encode_only, name = "56Ce")] f56 { x: u8 },
    #[musli(Binary, encode_only, name = "57Be")] #[musli(mode = Custom, decode_only, name = "57Cd")] f57 { x: u8 },
    #[musli(Binary, decode_only, name = "58Bd")] #[musli(Text, name = "58T")] f58 { x: u8 },
    #[musli(Binary, decode_only, name = "59Bd")] #[musli(Text, encode_only, name = "59Te")] f59 { x: u8 },
}
impl Part for Fields0 {
    const NAME: &'static str = "field";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (0, Self { f0: 200, ..Self::default() }),
            (1, Self { f1: 200, ..Self::default() }),
            (2, Self { f2: 200, ..Self::default() }),
            (3, Self { f3: 200, ..Self::default() }),
            (4, Self { f4: 200, ..Self::default() }),
            (5, Self { f5: 200, ..Self::default() }),
            (6, Self { f6: 200, ..Self::default() }),
            (7, Self { f7: 200, ..Self::default() }),
            (8, Self { f8: 200, ..Self::default() }),
            (9, Self { f9: 200, ..Self::default() }),
            (10, Self { f10: 200, ..Self::default() }),
            (11, Self { f11: 200, ..Self::default() }),
            (12, Self { f12: 200, ..Self::default() }),
            (13, Self { f13: 200, ..Self::default() }),
            (14, Self { f14: 200, ..Self::default() }),
            (15, Self { f15: 200, ..Self::default() }),
            (16, Self { f16: 200, ..Self::default() }),
            (17, Self { f17: 200, ..Self::default() }),
            (18, Self { f18: 200, ..Self::default() }),
            (19, Self { f19: 200, ..Self::default() }),
            (20, Self { f20: 200, ..Self::default() }),
            (21, Self { f21: 200, ..Self::default() }),
            (22, Self { f22: 200, ..Self::default() }),
            (23, Self { f23: 200, ..Self::default() }),
            (24, Self { f24: 200, ..Self::default() }),
            (25, Self { f25: 200, ..Self::default() }),
            (26, Self { f26: 200, ..Self::default() }),
            (27, Self { f27: 200, ..Self::default() }),
            (28, Self { f28: 200, ..Self::default() }),
            (29, Self { f29: 200, ..Self::default() }),
            (30, Self { f30: 200, ..Self::default() }),
            (31, Self { f31: 200, ..Self::default() }),
            (32, Self { f32: 200, ..Self::default() }),
            (33, Self { f33: 200, ..Self::default() }),
            (34, Self { f34: 200, ..Self::default() }),
            (35, Self { f35: 200, ..Self::default() }),
            (36, Self { f36: 200, ..Self::default() }),
            (37, Self { f37: 200, ..Self::default() }),
            (38, Self { f38: 200, ..Self::default() }),
            (39, Self { f39: 200, ..Self::default() }),
            (40, Self { f40: 200, ..Self::default() }),
            (41, Self { f41: 200, ..Self::default() }),
            (42, Self { f42: 200, ..Self::default() }),
            (43, Self { f43: 200, ..Self::default() }),
            (44, Self { f44: 200, ..Self::default() }),
            (45, Self { f45: 200, ..Self::default() }),
            (46, Self { f46: 200, ..Self::default() }),
            (47, Self { f47: 200, ..Self::default() }),
            (48, Self { f48: 200, ..Self::default() }),
            (49, Self { f49: 200, ..Self::default() }),
            (50, Self { f50: 200, ..Self::default() }),
            (51, Self { f51: 200, ..Self::default() }),
            (52, Self { f52: 200, ..Self::default() }),
            (53, Self { f53: 200, ..Self::default() }),
            (54, Self { f54: 200, ..Self::default() }),
            (55, Self { f55: 200, ..Self::default() }),
            (56, Self { f56: 200, ..Self::default() }),
            (57, Self { f57: 200, ..Self::default() }),
            (58, Self { f58: 200, ..Self::default() }),
            (59, Self { f59: 200, ..Self::default() }),
        ]
    }
    fn with(name: &str, _: Den) -> Den {
        Den::Map(vec![(Den::str(name), Den::U8(200))])
    }
}
impl Part for Unit0 {
    const NAME: &'static str = "unit";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (0, Self::f0),
            (1, Self::f1),
            (2, Self::f2),
            (3, Self::f3),
            (4, Self::f4),
            (5, Self::f5),
            (6, Self::f6),
            (7, Self::f7),
            (8, Self::f8),
            (9, Self::f9),
            (10, Self::f10),
            (11, Self::f11),
            (12, Self::f12),
            (13, Self::f13),
            (14, Self::f14),
            (15, Self::f15),
            (16, Self::f16),
            (17, Self::f17),
            (18, Self::f18),
            (19, Self::f19),
            (20, Self::f20),
            (21, Self::f21),
            (22, Self::f22),
            (23, Self::f23),
            (24, Self::f24),
            (25, Self::f25),
            (26, Self::f26),
            (27, Self::f27),
            (28, Self::f28),
            (29, Self::f29),
            (30, Self::f30),
            (31, Self::f31),
            (32, Self::f32),
            (33, Self::f33),
            (34, Self::f34),
            (35, Self::f35),
            (36, Self::f36),
            (37, Self::f37),
            (38, Self::f38),
            (39, Self::f39),
            (40, Self::f40),
            (41, Self::f41),
            (42, Self::f42),
            (43, Self::f43),
            (44, Self::f44),
            (45, Self::f45),
            (46, Self::f46),
            (47, Self::f47),
            (48, Self::f48),
            (49, Self::f49),
            (50, Self::f50),
            (51, Self::f51),
            (52, Self::f52),
            (53, Self::f53),
            (54, Self::f54),
            (55, Self::f55),
            (56, Self::f56),
            (57, Self::f57),
            (58, Self::f58),
            (59, Self::f59),
        ]
    }
    fn with(name: &str, _: Den) -> Den {
        Den::str(name)
    }
}
impl Part for Full0 {
    const NAME: &'static str = "variant";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (0, Self::f0 { x: 201 }),
            (1, Self::f1 { x: 201 }),
            (2, Self::f2 { x: 201 }),
            (3, Self::f3 { x: 201 }),
            (4, Self::f4 { x: 201 }),
            (5, Self::f5 { x: 201 }),
            (6, Self::f6 { x: 201 }),
            (7, Self::f7 { x: 201 }),
            (8, Self::f8 { x: 201 }),
            (9, Self::f9 { x: 201 }),
            (10, Self::f10 { x: 201 }),
            (11, Self::f11 { x: 201 }),
            (12, Self::f12 { x: 201 }),
            (13, Self::f13 { x: 201 }),
            (14, Self::f14 { x: 201 }),
            (15, Self::f15 { x: 201 }),
            (16, Self::f16 { x: 201 }),
            (17, Self::f17 { x: 201 }),
            (18, Self::f18 { x: 201 }),
            (19, Self::f19 { x: 201 }),
            (20, Self::f20 { x: 201 }),
            (21, Self::f21 { x: 201 }),
            (22, Self::f22 { x: 201 }),
            (23, Self::f23 { x: 201 }),
            (24, Self::f24 { x: 201 }),
            (25, Self::f25 { x: 201 }),
            (26, Self::f26 { x: 201 }),
            (27, Self::f27 { x: 201 }),
            (28, Self::f28 { x: 201 }),
            (29, Self::f29 { x: 201 }),
            (30, Self::f30 { x: 201 }),
            (31, Self::f31 { x: 201 }),
            (32, Self::f32 { x: 201 }),
            (33, Self::f33 { x: 201 }),
            (34, Self::f34 { x: 201 }),
            (35, Self::f35 { x: 201 }),
            (36, Self::f36 { x: 201 }),
            (37, Self::f37 { x: 201 }),
            (38, Self::f38 { x: 201 }),
            (39, Self::f39 { x: 201 }),
            (40, Self::f40 { x: 201 }),
            (41, Self::f41 { x: 201 }),
            (42, Self::f42 { x: 201 }),
            (43, Self::f43 { x: 201 }),
            (44, Self::f44 { x: 201 }),
            (45, Self::f45 { x: 201 }),
            (46, Self::f46 { x: 201 }),
            (47, Self::f47 { x: 201 }),
            (48, Self::f48 { x: 201 }),
            (49, Self::f49 { x: 201 }),
            (50, Self::f50 { x: 201 }),
            (51, Self::f51 { x: 201 }),
            (52, Self::f52 { x: 201 }),
            (53, Self::f53 { x: 201 }),
            (54, Self::f54 { x: 201 }),
            (55, Self::f55 { x: 201 }),
            (56, Self::f56 { x: 201 }),
            (57, Self::f57 { x: 201 }),
            (58, Self::f58 { x: 201 }),
            (59, Self::f59 { x: 201 }),
        ]
    }
    fn with(name: &str, x: Den) -> Den {
        Den::var(Den::str(name), Den::Map(vec![(x, Den::U8(201))]))
    }
}
#[derive(Debug, Clone, PartialEq, Default, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub struct Fields1 {
    #[musli(Binary, decode_only, name = "60Bd")] #[musli(Text, decode_only, name = "60Td")] #[musli(default, skip_encoding_if = zero)] pub f60: u8,
    #[musli(Binary, decode_only, name = "61Bd")] #[musli(mode = Custom, name = "61C")] #[musli(default, skip_encoding_if = zero)] pub f61: u8,
    #[musli(Binary, decode_only, name = "62Bd")] #[musli(mode = Custom, encode_only, name = "62Ce")] #[musli(default, skip_encoding_if = zero)] pub f62: u8,
    #[musli(Binary, decode_only, name = "63Bd")] #[musli(mode = Custom, decode_only, name = "63Cd")] #[musli(default, skip_encoding_if = zero)] pub f63: u8,
    #[musli(Text, name = "64T")] #[musli(Text, encode_only, name = "64Te")] #[musli(default, skip_encoding_if = zero)] pub f64: u8,
    #[musli(Text, name = "65T")] #[musli(Text, decode_only, name = "65Td")] #[musli(default, skip_encoding_if = zero)] pub f65: u8,
    #[musli(Text, name = "66T")] #[musli(mode = Custom, name = "66C")] #[musli(default, skip_encoding_if = zero)] pub f66: u8,
    #[musli(Text, name = "67T")] #[musli(mode = Custom, encode_only, name = "67Ce")] #[musli(default, skip_encoding_if = zero)] pub f67: u8,
    #[musli(Text, name = "68T")] #[musli(mode = Custom, decode_only, name = "68Cd")] #[musli(default, skip_encoding_if = zero)] pub f68: u8,
    #[musli(Text, encode_only, name = "69Te")] #[musli(Text, decode_only, name = "69Td")] #[musli(default, skip_encoding_if = zero)] pub f69: u8,
    #[musli(Text, encode_only, name = "70Te")] #[musli(mode = Custom, name = "70C")] #[musli(default, skip_encoding_if = zero)] pub f70: u8,
    #[musli(Text, encode_only, name = "71Te")] #[musli(mode = Custom, encode_only, name = "71Ce")] #[musli(default, skip_encoding_if = zero)] pub f71: u8,
    #[musli(Text, encode_only, name = "72Te")] #[musli(mode = Custom, decode_only, name = "72Cd")] #[musli(default, skip_encoding_if = zero)] pub f72: u8,
    #[musli(Text, decode_only, name = "73Td")] #[musli(mode = Custom, name = "73C")] #[musli(default, skip_encoding_if = zero)] pub f73: u8,
    #[musli(Text, decode_only, name = "74Td")] #[musli(mode = Custom, encode_only, name = "74Ce")] #[musli(default, skip_encoding_if = zero)] pub f74: u8,
    #[musli(Text, decode_only, name = "75Td")] #[musli(mode = Custom, decode_only, name = "75Cd")] #[musli(default, skip_encoding_if = zero)] pub f75: u8,
    #[musli(mode = Custom, name = "76C")] #[musli(mode = Custom, encode_only, name = "76Ce")] #[musli(default, skip_encoding_if = zero)] pub f76: u8,
    #[musli(mode = Custom, name = "77C")] #[musli(mode = Custom, decode_only, name = "77Cd")] #[musli(default, skip_encoding_if = zero)] pub f77: u8,
    #[musli(mode = Custom, encode_only, name = "78Ce")] #[musli(mode = Custom, decode_only, name = "78Cd")] #[musli(default, skip_encoding_if = zero)] pub f78: u8,
    #[musli(name = "79")] #[musli(encode_only, name = "79e")] #[musli(decode_only, name = "79d")] #[musli(default, skip_encoding_if = zero)] pub f79: u8,
    #[musli(name = "80")] #[musli(encode_only, name = "80e")] #[musli(Binary, name = "80B")] #[musli(default, skip_encoding_if = zero)] pub f80: u8,
    #[musli(name = "81")] #[musli(encode_only, name = "81e")] #[musli(Binary, encode_only, name = "81Be")] #[musli(default, skip_encoding_if = zero)] pub f81: u8,
    #[musli(name = "82")] #[musli(encode_only, name = "82e")] #[musli(Binary, decode_only, name = "82Bd")] #[musli(default, skip_encoding_if = zero)] pub f82: u8,
    #[musli(name = "83")] #[musli(encode_only, name = "83e")] #[musli(Text, name = "83T")] #[musli(default, skip_encoding_if = zero)] pub f83: u8,
    #[musli(name = "84")] #[musli(encode_only, name = "84e")] #[musli(Text, encode_only, name = "84Te")] #[musli(default, skip_encoding_if = zero)] pub f84: u8,
    #[musli(name = "85")] #[musli(encode_only, name = "85e")] #[musli(Text, decode_only, name = "85Td")] #[musli(default, skip_encoding_if = zero)] pub f85: u8,
    #[musli(name = "86")] #[musli(encode_only, name = "86e")] #[musli(mode = Custom, name = "86C")] #[musli(default, skip_encoding_if = zero)] pub f86: u8,
    #[musli(name = "87")] #[musli(encode_only, name = "87e")] #[musli(mode = Custom, encode_only, name = "87Ce")] #[musli(default, skip_encoding_if = zero)] pub f87: u8,
    #[musli(name = "88")] #[musli(encode_only, name = "88e")] #[musli(mode = Custom, decode_only, name = "88Cd")] #[musli(default, skip_encoding_if = zero)] pub f88: u8,
    #[musli(name = "89")] #[musli(decode_only, name = "89d")] #[musli(Binary, name = "89B")] #[musli(default, skip_encoding_if = zero)] pub f89: u8,
    #[musli(name = "90")] #[musli(decode_only, name = "90d")] #[musli(Binary, encode_only, name = "90Be")] #[musli(default, skip_encoding_if = zero)] pub f90: u8,
    #[musli(name = "91")] #[musli(decode_only, name = "91d")] #[musli(Binary, decode_only, name = "91Bd")] #[musli(default, skip_encoding_if = zero)] pub f91: u8,
    #[musli(name = "92")] #[musli(decode_only, name = "92d")] #[musli(Text, name = "92T")] #[musli(default, skip_encoding_if = zero)] pub f92: u8,
    #[musli(name = "93")] #[musli(decode_only, name = "93d")] #[musli(Text, encode_only, name = "93Te")] #[musli(default, skip_encoding_if = zero)] pub f93: u8,
    #[musli(name = "94")] #[musli(decode_only, name = "94d")] #[musli(Text, decode_only, name = "94Td")] #[musli(default, skip_encoding_if = zero)] pub f94: u8,
    #[musli(name = "95")] #[musli(decode_only, name = "95d")] #[musli(mode = Custom, name = "95C")] #[musli(default, skip_encoding_if = zero)] pub f95: u8,
    #[musli(name = "96")] #[musli(decode_only, name = "96d")] #[musli(mode = Custom, encode_only, name = "96Ce")] #[musli(default, skip_encoding_if = zero)] pub f96: u8,
    #[musli(name = "97")] #[musli(decode_only, name = "97d")] #[musli(mode = Custom, decode_only, name = "97Cd")] #[musli(default, skip_encoding_if = zero)] pub f97: u8,
    #[musli(name = "98")] #[musli(Binary, name = "98B")] #[musli(Binary, encode_only, name = "98Be")] #[musli(default, skip_encoding_if = zero)] pub f98: u8,
    #[musli(name = "99")] #[musli(Binary, name = "99B")] #[musli(Binary, decode_only, name = "99Bd")] #[musli(default, skip_encoding_if = zero)] pub f99: u8,
    #[musli(name = "100")] #[musli(Binary, name = "100B")] #[musli(Text, name = "100T")] #[musli(default, skip_encoding_if = zero)] pub f100: u8,
    #[musli(name = "101")] #[musli(Binary, name = "101B")] #[musli(Text, encode_only, name = "101Te")] #[musli(default, skip_encoding_if = zero)] pub f101: u8,
    #[musli(name = "102")] #[musli(Binary, name = "102B")] #[musli(Text, decode_only, name = "102Td")] #[musli(default, skip_encoding_if = zero)] pub f102: u8,
    #[musli(name = "103")] #[musli(Binary, name = "103B")] #[musli(mode = Custom, name = "103C")] #[musli(default, skip_encoding_if = zero)] pub f103: u8,
    #[musli(name = "104")] #[musli(Binary, name = "104B")] #[musli(mode = Custom, encode_only, name = "104Ce")] #[musli(default, skip_encoding_if = zero)] pub f104: u8,
    #[musli(name = "105")] #[musli(Binary, name = "105B")] #[musli(mode = Custom, decode_only, name = "105Cd")] #[musli(default, skip_encoding_if = zero)] pub f105: u8,
    #[musli(name = "106")] #[musli(Binary, encode_only, name = "106Be")] #[musli(Binary, decode_only, name = "106Bd")] #[musli(default, skip_encoding_if = zero)] pub f106: u8,
    #[musli(name = "107")] #[musli(Binary, encode_only, name = "107Be")] #[musli(Text, name = "107T")] #[musli(default, skip_encoding_if = zero)] pub f107: u8,
    #[musli(name = "108")] #[musli(Binary, encode_only, name = "108Be")] #[musli(Text, encode_only, name = "108Te")] #[musli(default, skip_encoding_if = zero)] pub f108: u8,
    #[musli(name = "109")] #[musli(Binary, encode_only, name = "109Be")] #[musli(Text, decode_only, name = "109Td")] #[musli(default, skip_encoding_if = zero)] pub f109: u8,
    #[musli(name = "110")] #[musli(Binary, encode_only, name = "110Be")] #[musli(mode = Custom, name = "110C")] #[musli(default, skip_encoding_if = zero)] pub f110: u8,
    #[musli(name = "111")] #[musli(Binary, encode_only, name = "111Be")] #[musli(mode = Custom, encode_only, name = "111Ce")] #[musli(default, skip_encoding_if = zero)] pub f111: u8,
    #[musli(name = "112")] #[musli(Binary, encode_only, name = "112Be")] #[musli(mode = Custom, decode_only, name = "112Cd")] #[musli(default, skip_encoding_if = zero)] pub f112: u8,
    #[musli(name = "113")] #[musli(Binary, decode_only, name = "113Bd")] #[musli(Text, name = "113T")] #[musli(default, skip_encoding_if = zero)] pub f113: u8,
    #[musli(name = "114")] #[musli(Binary, decode_only, name = "114Bd")] #[musli(Text, encode_only, name = "114Te")] #[musli(default, skip_encoding_if = zero)] pub f114: u8,
    #[musli(name = "115")] #[musli(Binary, decode_only, name = "115Bd")] #[musli(Text, decode_only, name = "115Td")] #[musli(default, skip_encoding_if = zero)] pub f115: u8,
    #[musli(name = "116")] #[musli(Binary, decode_only, name = "116Bd")] #[musli(mode = Custom, name = "116C")] #[musli(default, skip_encoding_if = zero)] pub f116: u8,
    #[musli(name = "117")] #[musli(Binary, decode_only, name = "117Bd")] #[musli(mode = Custom, encode_only, name = "117Ce")] #[musli(default, skip_encoding_if = zero)] pub f117: u8,
    #[musli(name = "118")] #[musli(Binary, decode_only, name = "118Bd")] #[musli(mode = Custom, decode_only, name = "118Cd")] #[musli(default, skip_encoding_if = zero)] pub f118: u8,
    #[musli(name = "119")] #[musli(Text, name = "119T")] #[musli(Text, encode_only, name = "119Te")] #[musli(default, skip_encoding_if = zero)] pub f119: u8,
}
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub enum Unit1 {
    #[musli(Binary, decode_only, name = "60Bd")] #[musli(Text, decode_only, name = "60Td")] f60,
    #[musli(Binary, decode_only, name = "61Bd")] #[musli(mode = Custom, name = "61C")] f61,
    #[musli(Binary, decode_only, name = "62Bd")] #[musli(mode = Custom, encode_only, name = "62Ce")] f62,
    #[musli(Binary, decode_only, name = "63Bd")] #[musli(mode = Custom, decode_only, name = "63Cd")] f63,
    #[musli(Text, name = "64T")] #[musli(Text, encode_only, name = "64Te")] f64,
    #[musli(Text, name = "65T")] #[musli(Text, decode_only, name = "65Td")] f65,
    #[musli(Text, name = "66T")] #[musli(mode = Custom, name = "66C")] f66,
    #[musli(Text, name = "67T")] #[musli(mode = Custom, encode_only, name = "67Ce")] f67,
    #[musli(Text, name = "68T")] #[musli(mode = Custom, decode_only, name = "68Cd")] f68,
    #[musli(Text, encode_only, name = "69Te")] #[musli(Text, decode_only, name = "69Td")] f69,
    #[musli(Text, encode_only, name = "70Te")] #[musli(mode = Custom, name = "70C")] f70,
    #[musli(Text, encode_only, name = "71Te")] #[musli(mode = Custom, encode_only, name = "71Ce")] f71,
    #[musli(Text, encode_only, name = "72Te")] #[musli(mode = Custom, decode_only, name = "72Cd")] f72,
    #[musli(Text, decode_only, name = "73Td")] #[musli(mode = Custom, name = "73C")] f73,
    #[musli(Text, decode_only, name = "74Td")] #[musli(mode = Custom, encode_only, name = "74Ce")] f74,
    #[musli(Text, decode_only, name = "75Td")] #[musli(mode = Custom, decode_only, name = "75Cd")] f75,
    #[musli(mode = Custom, name = "76C")] #[musli(mode = Custom, encode_only, name = "76Ce")] f76,
    #[musli(mode = Custom, name = "77C")] #[musli(mode = Custom, decode_only, name = "77Cd")] f77,
    #[musli(mode = Custom, encode_only, name = "78Ce")] #[musli(mode = Custom, decode_only, name = "78Cd")] f78,
    #[musli(name = "79")] #[musli(encode_only, name = "79e")] #[musli(decode_only, name = "79d")] f79,
    #[musli(name = "80")] #[musli(encode_only, name = "80e")] #[musli(Binary, name = "80B")] f80,
    #[musli(name = "81")] #[musli(encode_only, name = "81e")] #[musli(Binary, encode_only, name = "81Be")] f81,
    #[musli(name = "82")] #[musli(encode_only, name = "82e")] #[musli(Binary, decode_only, name = "82Bd")] f82,
    #[musli(name = "83")] #[musli(encode_only, name = "83e")] #[musli(Text, name = "83T")] f83,
    #[musli(name = "84")] #[musli(encode_only, name = "84e")] #[musli(Text, encode_only, name = "84Te")] f84,
    #[musli(name = "85")] #[musli(encode_only, name = "85e")] #[musli(Text, decode_only, name = "85Td")] f85,
    #[musli(name = "86")] #[musli(encode_only, name = "86e")] #[musli(mode = Custom, name = "86C")] f86,
    #[musli(name = "87")] #[musli(encode_only, name = "87e")] #[musli(mode = Custom, encode_only, name = "87Ce")] f87,
    #[musli(name = "88")] #[musli(encode_only, name = "88e")] #[musli(mode = Custom, decode_only, name = "88Cd")] f88,
    #[musli(name = "89")] #[musli(decode_only, name = "89d")] #[musli(Binary, name = "89B")] f89,
    #[musli(name = "90")] #[musli(decode_only, name = "90d")] #[musli(Binary, encode_only, name = "90Be")] f90,
    #[musli(name = "91")] #[musli(decode_only, name = "91d")] #[musli(Binary, decode_only, name = "91Bd")] f91,
    #[musli(name = "92")] #[musli(decode_only, name = "92d")] #[musli(Text, name = "92T")] f92,
    #[musli(name = "93")] #[musli(decode_only, name = "93d")] #[musli(Text, encode_only, name = "93Te")] f93,
    #[musli(name = "94")] #[musli(decode_only, name = "94d")] #[musli(Text, decode_only, name = "94Td")] f94,
    #[musli(name = "95")] #[musli(decode_only, name = "95d")] #[musli(mode = Custom, name = "95C")] f95,
    #[musli(name = "96")] #[musli(decode_only, name = "96d")] #[musli(mode = Custom, encode_only, name = "96Ce")] f96,
    #[musli(name = "97")] #[musli(decode_only, name = "97d")] #[musli(mode = Custom, decode_only, name = "97Cd")] f97,
    #[musli(name = "98")] #[musli(Binary, name = "98B")] #[musli(Binary, encode_only, name = "98Be")] f98,
    #[musli(name = "99")] #[musli(Binary, name = "99B")] #[musli(Binary, decode_only, name = "99Bd")] f99,
    #[musli(name = "100")] #[musli(Binary, name = "100B")] #[musli(Text, name = "100T")] f100,
    #[musli(name = "101")] #[musli(Binary, name = "101B")] #[musli(Text, encode_only, name = "101Te")] f101,
    #[musli(name = "102")] #[musli(Binary, name = "102B")] #[musli(Text, decode_only, name = "102Td")] f102,
    #[musli(name = "103")] #[musli(Binary, name = "103B")] #[musli(mode = Custom, name = "103C")] f103,
    #[musli(name = "104")] #[musli(Binary, name = "104B")] #[musli(mode = Custom, encode_only, name = "104Ce")] f104,
    #[musli(name = "105")] #[musli(Binary, name = "105B")] #[musli(mode = Custom, decode_only, name = "105Cd")] f105,
    #[musli(name = "106")] #[musli(Binary, encode_only, name = "106Be")] #[musli(Binary, decode_only, name = "106Bd")] f106,
    #[musli(name = "107")] #[musli(Binary, encode_only, name = "107Be")] #[musli(Text, name = "107T")] f107,
    #[musli(name = "108")] #[musli(Binary, encode_only, name = "108Be")] #[musli(Text, encode_only, name = "108Te")] f108,
    #[musli(name = "109")] #[musli(Binary, encode_only, name = "109Be")] #[musli(Text, decode_only, name = "109Td")] f109,
    #[musli(name = "110")] #[musli(Binary, encode_only, name = "110Be")] #[musli(mode = Custom, name = "110C")] f110,
    #[musli(name = "111")] #[musli(Binary, encode_only, name = "111Be")] #[musli(mode = Custom, encode_only, name = "111Ce")] f111,
    #[musli(name = "112")] #[musli(Binary, encode_only, name = "112Be")] #[musli(mode = Custom, decode_only, name = "112Cd")] f112,
    #[musli(name = "113")] #[musli(Binary, decode_only, name = "113Bd")] #[musli(Text, name = "113T")] f113,
    #[musli(name = "114")] #[musli(Binary, decode_only, name = "114Bd")] #[musli(Text, encode_only, name = "114Te")] f114,
    #[musli(name = "115")] #[musli(Binary, decode_only, name = "115Bd")] #[musli(Text, decode_only, name = "115Td")] f115,
    #[musli(name = "116")] #[musli(Binary, decode_only, name = "116Bd")] #[musli(mode = Custom, name = "116C")] f116,
    #[musli(name = "117")] #[musli(Binary, decode_only, name = "117Bd")] #[musli(mode = Custom, encode_only, name = "117Ce")] f117,
    #[musli(name = "118")] #[musli(Binary, decode_only, name = "118Bd")] #[musli(mode = Custom, decode_only, name = "118Cd")] f118,
    #[musli(name = "119")] #[musli(Text, name = "119T")] #[musli(Text, encode_only, name = "119Te")] f119,
}
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub enum Full1 {
    #[musli(Binary, decode_only, name = "60Bd")] #[musli(Text, decode_only, name = "60Td")] f60 { x: u8 },
    #[musli(Binary, decode_only, name = "61Bd")] #[musli(mode = Custom, name = "61C")] f61 { x: u8 },
    #[musli(Binary, decode_only, name = "62Bd")] #[musli(mode = Custom, encode_only, name = "62Ce")] f62 { x: u8 },
    #[musli(Binary, decode_only, name = "63Bd")] #[musli(mode = Custom, decode_only, name = "63Cd")] f63 { x: u8 },
    #[musli(Text, name = "64T")] #[musli(Text, encode_only, name = "64Te")] f64 { x: u8 },
    #[musli(Text, name = "65T")] #[musli(Text, decode_only, name = "65Td")] f65 { x: u8 },
    #[musli(Text, name = "66T")] #[musli(mode = Custom, name = "66C")] f66 { x: u8 },
    #[musli(Text, name = "67T")] #[musli(mode = Custom, encode_only, name = "67Ce")] f67 { x: u8 },
    #[musli(Text, name = "68T")] #[musli(mode = Custom, decode_only, name = "68Cd")] f68 { x: u8 },
    #[musli(Text, encode_only, name = "69Te")] #[musli(Text, decode_only, name = "69Td")] f69 { x: u8 },
    #[musli(Text, encode_only, name = "70Te")] #[musli(mode = Custom, name = "70C")] f70 { x: u8 },
    #[musli(Text, encode_only, name = "71Te")] #[musli(mode = Custom, encode_only, name = "71Ce")] f71 { x: u8 },
    #[musli(Text, encode_only, name = "72Te")] #[musli(mode = Custom, decode_only, name = "72Cd")] f72 { x: u8 },
    #[musli(Text, decode_only, name = "73Td")] #[musli(mode = Custom, name = "73C")] f73 { x: u8 },
    #[musli(Text, decode_only, name = "74Td")] #[musli(mode = Custom, encode_only, name = "74Ce")] f74 { x: u8 },
    #[musli(Text, decode_only, name = "75Td")] #[musli(mode = Custom, decode_only, name = "75Cd")] f75 { x: u8 },
    #[musli(mode = Custom, name = "76C")] #[musli(mode = Custom, encode_only, name = "76Ce")] f76 { x: u8 },
    #[musli(mode = Custom, name = "77C")] #[musli(mode = Custom, decode_only, name = "77Cd")] f77 { x: u8 },
    #[musli(mode = Custom, encode_only, name = "78Ce")] #[musli(mode = Custom, decode_only, name = "78Cd")] f78 { x: u8 },
    #[musli(name = "79")] #[musli(encode_only, name = "79e")] #[musli(decode_only, name = "79d")] f79 { x: u8 },
    #[musli(name = "80")] #[musli(encode_only, name = "80e")] #[musli(Binary, name = "80B")] f80 { x: u8 },
    #[musli(name = "81")] #[musli(encode_only, name = "81e")] #[musli(Binary, encode_only, name = "81Be")] f81 { x: u8 },
    #[musli(name = "82")] #[musli(encode_only, name = "82e")] #[musli(Binary, decode_only, name = "82Bd")] f82 { x: u8 },
    #[musli(name = "83")] #[musli(encode_only, name = "83e")] #[musli(Text, name = "83T")] f83 { x: u8 },
    #[musli(name = "84")] #[musli(encode_only, name = "84e")] #[musli(Text, encode_only, name = "84Te")] f84 { x: u8 },
    #[musli(name = "85")] #[musli(encode_only, name = "85e")] #[musli(Text, decode_only, name = "85Td")] f85 { x: u8 },
    #[musli(name = "86")] #[musli(encode_only, name = "86e")] #[musli(mode = Custom, name = "86C")] f86 { x: u8 },
    #[musli(name = "87")] #[musli(encode_only, name = "87e")] #[musli(mode = Custom, encode_only, name = "87Ce")] f87 { x: u8 },
    #[musli(name = "88")] #[musli(encode_only, name = "88e")] #[musli(mode = Custom, decode_only, name = "88Cd")] f88 { x: u8 },
    #[musli(name = "89")] #[musli(decode_only, name = "89d")] #[musli(Binary, name = "89B")] f89 { x: u8 },
    #[musli(name = "90")] #[musli(decode_only, name = "90d")] #[musli(Binary, encode_only, name = "90Be")] f90 { x: u8 },
    #[musli(name = "91")] #[musli(decode_only, name = "91d")] #[musli(Binary, decode_only, name = "91Bd")] f91 { x: u8 },
    #[musli(name = "92")] #[musli(decode_only, name = "92d")] #[musli(Text, name = "92T")] f92 { x: u8 },
    #[musli(name = "93")] #[musli(decode_only, name = "93d")] #[musli(Text, encode_only, name = "93Te")] f93 { x: u8 },
    #[musli(name = "94")] #[musli(decode_only, name = "94d")] #[musli(Text, decode_only, name = "94Td")] f94 { x: u8 },
    #[musli(name = "95")] #[musli(decode_only, name = "95d")] #[musli(mode = Custom, name = "95C")] f95 { x: u8 },
    #[musli(name = "96")] #[musli(decode_only, name = "96d")] #[musli(mode = Custom, encode_only, name = "96Ce")] f96 { x: u8 },
    #[musli(name = "97")] #[musli(decode_only, name = "97d")] #[musli(mode = Custom, decode_only, name = "97Cd")] f97 { x: u8 },
    #[musli(name = "98")] #[musli(Binary, name = "98B")] #[musli(Binary, encode_only, name = "98Be")] f98 { x: u8 },
    #[musli(name = "99")] #[musli(Binary, name = "99B")] #[musli(Binary, decode_only, name = "99Bd")] f99 { x: u8 },
    #[musli(name = "100")] #[musli(Binary, name = "100B")] #[musli(Text, name = "100T")] f100 { x: u8 },
    #[musli(name = "101")] #[musli(Binary, name = "101B")] #[musli(Text, encode_only, name = "101Te")] f101 { x: u8 },
    #[musli(name = "102")] #[musli(Binary, name = "102B")] #[musli(Text, decode_only, name = "102Td")] f102 { x: u8 },
    #[musli(name = "103")] #[musli(Binary, name = "103B")] #[musli(mode = Custom, name = "103C")] f103 { x: u8 },
    #[musli(name = "104")] #[musli(Binary, name = "104B")] #[musli(mode = Custom, encode_only, name = "104Ce")] f104 { x: u8 },
    #[musli(name = "105")] #[musli(Binary, name = "105B")] #[musli(mode = Custom, decode_only, name = "105Cd")] f105 { x: u8 },
    #[musli(name = "106")] #[musli(Binary, encode_only, name = "106Be")] #[musli(Binary, decode_only, name = "106Bd")] f106 { x: u8 },
    #[musli(name = "107")] #[musli(Binary, encode_only, name = "107Be")] #[musli(Text, name = "107T")] f107 { x: u8 },
    #[musli(name = "108")] #[musli(Binary, encode_only, name = "108Be")] #[musli(Text, encode_only, name = "108Te")] f108 { x: u8 },
    #[musli(name = "109")] #[musli(Binary, encode_only, name = "109Be")] #[musli(Text, decode_only, name = "109Td")] f109 { x: u8 },
    #[musli(name = "110")] #[musli(Binary, encode_only, name = "110Be")] #[musli(mode = Custom, name = "110C")] f110 { x: u8 },
    #[musli(name = "111")] #[musli(Binary, encode_only, name = "111Be")] #[musli(mode = Custom, encode_only, name = "111Ce")] f111 { x: u8 },
    #[musli(name = "112")] #[musli(Binary, encode_only, name = "112Be")] #[musli(mode = Custom, decode_only, name = "112Cd")] f112 { x: u8 },
    #[musli(name = "113")] #[musli(Binary, decode_only, name = "113Bd")] #[musli(Text, name = "113T")] f113 { x: u8 },
    #[musli(name = "114")] #[musli(Binary, decode_only, name = "114Bd")] #[musli(Text, encode_only, name = "114Te")] f114 { x: u8 },
    #[musli(name = "115")] #[musli(Binary, decode_only, name = "115Bd")] #[musli(Text, decode_only, name = "115Td")] f115 { x: u8 },
    #[musli(name = "116")] #[musli(Binary, decode_only, name = "116Bd")] #[musli(mode = Custom, name = "116C")] f116 { x: u8 },
    #[musli(name = "117")] #[musli(Binary, decode_only, name = "117Bd")] #[musli(mode = Custom, encode_only, name = "117Ce")] f117 { x: u8 },
    #[musli(name = "118")] #[musli(Binary, decode_only, name = "118Bd")] #[musli(mode = Custom, decode_only, name = "118Cd")] f118 { x: u8 },
    #[musli(name = "119")] #[musli(Text, name = "119T")] #[musli(Text, encode_only, name = "119Te")] f119 { x: u8 },
}
impl Part for Fields1 {
    const NAME: &'static str = "field";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (60, Self { f60: 200, ..Self::default() }),
            (61, Self { f61: 200, ..Self::default() }),
            (62, Self { f62: 200, ..Self::default() }),
            (63, Self { f63: 200, ..Self::default() }),
            (64, Self { f64: 200, ..Self::default() }),
            (65, Self { f65: 200, ..Self::default() }),
            (66, Self { f66: 200, ..Self::default() }),
            (67, Self { f67: 200, ..Self::default() }),
            (68, Self { f68: 200, ..Self::default() }),
            (69, Self { f69: 200, ..Self::default() }),
            (70, Self { f70: 200, ..Self::default() }),
            (71, Self { f71: 200, ..Self::default() }),
            (72, Self { f72: 200, ..Self::default() }),
            (73, Self { f73: 200, ..Self::default() }),
            (74, Self { f74: 200, ..Self::default() }),
            (75, Self { f75: 200, ..Self::default() }),
            (76, Self { f76: 200, ..Self::default() }),
            (77, Self { f77: 200, ..Self::default() }),
            (78, Self { f78: 200, ..Self::default() }),
            (79, Self { f79: 200, ..Self::default() }),
            (80, Self { f80: 200, ..Self::default() }),
            (81, Self { f81: 200, ..Self::default() }),
            (82, Self { f82: 200, ..Self::default() }),
            (83, Self { f83: 200, ..Self::default() }),
            (84, Self { f84: 200, ..Self::default() }),
            (85, Self { f85: 200, ..Self::default() }),
            (86, Self { f86: 200, ..Self::default() }),
            (87, Self { f87: 200, ..Self::default() }),
            (88, Self { f88: 200, ..Self::default() }),
            (89, Self { f89: 200, ..Self::default() }),
            (90, Self { f90: 200, ..Self::default() }),
            (91, Self { f91: 200, ..Self::default() }),
            (92, Self { f92: 200, ..Self::default() }),
            (93, Self { f93: 200, ..Self::default() }),
            (94, Self { f94: 200, ..Self::default() }),
            (95, Self { f95: 200, ..Self::default() }),
            (96, Self { f96: 200, ..Self::default() }),
            (97, Self { f97: 200, ..Self::default() }),
            (98, Self { f98: 200, ..Self::default() }),
            (99, Self { f99: 200, ..Self::default() }),
            (100, Self { f100: 200, ..Self::default() }),
            (101, Self { f101: 200, ..Self::default() }),
            (102, Self { f102: 200, ..Self::default() }),
            (103, Self { f103: 200, ..Self::default() }),
            (104, Self { f104: 200, ..Self::default() }),
            (105, Self { f105: 200, ..Self::default() }),
            (106, Self { f106: 200, ..Self::default() }),
            (107, Self { f107: 200, ..Self::default() }),
            (108, Self { f108: 200, ..Self::default() }),
            (109, Self { f109: 200, ..Self::default() }),
            (110, Self { f110: 200, ..Self::default() }),
            (111, Self { f111: 200, ..Self::default() }),
            (112, Self { f112: 200, ..Self::default() }),
            (113, Self { f113: 200, ..Self::default() }),
            (114, Self { f114: 200, ..Self::default() }),
            (115, Self { f115: 200, ..Self::default() }),
            (116, Self { f116: 200, ..Self::default() }),
            (117, Self { f117: 200, ..Self::default() }),
            (118, Self { f118: 200, ..Self::default() }),
            (119, Self { f119: 200, ..Self::default() }),
        ]
    }
    fn with(name: &str, _: Den) -> Den {
        Den::Map(vec![(Den::str(name), Den::U8(200))])
    }
}
impl Part for Unit1 {
    const NAME: &'static str = "unit";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (60, Self::f60),
            (61, Self::f61),
            (62, Self::f62),
            (63, Self::f63),
            (64, Self::f64),
            (65, Self::f65),
            (66, Self::f66),
            (67, Self::f67),
            (68, Self::f68),
            (69, Self::f69),
            (70, Self::f70),
            (71, Self::f71),
            (72, Self::f72),
            (73, Self::f73),
            (74, Self::f74),
            (75, Self::f75),
            (76, Self::f76),
            (77, Self::f77),
            (78, Self::f78),
            (79, Self::f79),
            (80, Self::f80),
            (81, Self::f81),
            (82, Self::f82),
            (83, Self::f83),
            (84, Self::f84),
            (85, Self::f85),
            (86, Self::f86),
            (87, Self::f87),
            (88, Self::f88),
            (89, Self::f89),
            (90, Self::f90),
            (91, Self::f91),
            (92, Self::f92),
            (93, Self::f93),
            (94, Self::f94),
            (95, Self::f95),
            (96, Self::f96),
            (97, Self::f97),
            (98, Self::f98),
            (99, Self::f99),
            (100, Self::f100),
            (101, Self::f101),
            (102, Self::f102),
            (103, Self::f103),
            (104, Self::f104),
            (105, Self::f105),
            (106, Self::f106),
            (107, Self::f107),
            (108, Self::f108),
            (109, Self::f109),
            (110, Self::f110),
            (111, Self::f111),
            (112, Self::f112),
            (113, Self::f113),
            (114, Self::f114),
            (115, Self::f115),
            (116, Self::f116),
            (117, Self::f117),
            (118, Self::f118),
            (119, Self::f119),
        ]
    }
    fn with(name: &str, _: Den) -> Den {
        Den::str(name)
    }
}
impl Part for Full1 {
    const NAME: &'static str = "variant";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (60, Self::f60 { x: 201 }),
            (61, Self::f61 { x: 201 }),
            (62, Self::f62 { x: 201 }),
            (63, Self::f63 { x: 201 }),
            (64, Self::f64 { x: 201 }),
            (65, Self::f65 { x: 201 }),
            (66, Self::f66 { x: 201 }),
            (67, Self::f67 { x: 201 }),
            (68, Self::f68 { x: 201 }),
            (69, Self::f69 { x: 201 }),
            (70, Self::f70 { x: 201 }),
            (71, Self::f71 { x: 201 }),
            (72, Self::f72 { x: 201 }),
            (73, Self::f73 { x: 201 }),
            (74, Self::f74 { x: 201 }),
            (75, Self::f75 { x: 201 }),
            (76, Self::f76 { x: 201 }),
            (77, Self::f77 { x: 201 }),
            (78, Self::f78 { x: 201 }),
            (79, Self::f79 { x: 201 }),
            (80, Self::f80 { x: 201 }),
            (81, Self::f81 { x: 201 }),
            (82, Self::f82 { x: 201 }),
            (83, Self::f83 { x: 201 }),
            (84, Self::f84 { x: 201 }),
            (85, Self::f85 { x: 201 }),
            (86, Self::f86 { x: 201 }),
            (87, Self::f87 { x: 201 }),
            (88, Self::f88 { x: 201 }),
            (89, Self::f89 { x: 201 }),
            (90, Self::f90 { x: 201 }),
            (91, Self::f91 { x: 201 }),
            (92, Self::f92 { x: 201 }),
            (93, Self::f93 { x: 201 }),
            (94, Self::f94 { x: 201 }),
            (95, Self::f95 { x: 201 }),
            (96, Self::f96 { x: 201 }),
            (97, Self::f97 { x: 201 }),
            (98, Self::f98 { x: 201 }),
            (99, Self::f99 { x: 201 }),
            (100, Self::f100 { x: 201 }),
            (101, Self::f101 { x: 201 }),
            (102, Self::f102 { x: 201 }),
            (103, Self::f103 { x: 201 }),
            (104, Self::f104 { x: 201 }),
            (105, Self::f105 { x: 201 }),
            (106, Self::f106 { x: 201 }),
            (107, Self::f107 { x: 201 }),
            (108, Self::f108 { x: 201 }),
            (109, Self::f109 { x: 201 }),
            (110, Self::f110 { x: 201 }),
            (111, Self::f111 { x: 201 }),
            (112, Self::f112 { x: 201 }),
            (113, Self::f113 { x: 201 }),
            (114, Self::f114 { x: 201 }),
            (115, Self::f115 { x: 201 }),
            (116, Self::f116 { x: 201 }),
            (117, Self::f117 { x: 201 }),
            (118, Self::f118 { x: 201 }),
            (119, Self::f119 { x: 201 }),
        ]
    }
    fn with(name: &str, x: Den) -> Den {
        Den::var(Den::str(name), Den::Map(vec![(x, Den::U8(201))]))
    }
}
#[derive(Debug, Clone, PartialEq, Default, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub struct Fields2 {
    #[musli(name = "120")] #[musli(Text, name = "120T")] #[musli(Text, decode_only, name = "120Td")] #[musli(default, skip_encoding_if = zero)] pub f120: u8,
    #[musli(name = "121")] #[musli(Text, name = "121T")] #[musli(mode = Custom, name = "121C")] #[musli(default, skip_encoding_if = zero)] pub f121: u8,
    #[musli(name = "122")] #[musli(Text, name = "122T")] #[musli(mode = Custom, encode_only, name = "122Ce")] #[musli(default, skip_encoding_if = zero)] pub f122: u8,
    #[musli(name = "123")] #[musli(Text, name = "123T")] #[musli(mode = Custom, decode_only, name = "123Cd")] #[musli(default, skip_encoding_if = zero)] pub f123: u8,
    #[musli(name = "124")] #[musli(Text, encode_only, name = "124Te")] #[musli(Text, decode_only, name = "124Td")] #[musli(default, skip_encoding_if = zero)] pub f124: u8,
    #[musli(name = "125")] #[musli(Text, encode_only, name = "125Te")] #[musli(mode = Custom, name = "125C")] #[musli(default, skip_encoding_if = zero)] pub f125: u8,
    #[musli(name = "126")] #[musli(Text, encode_only, name = "126Te")] #[musli(mode = Custom, encode_only, name = "126Ce")] #[musli(default, skip_encoding_if = zero)] pub f126: u8,
    #[musli(name = "127")] #[musli(Text, encode_only, name = "127Te")] #[musli(mode = Custom, decode_only, name = "127Cd")] #[musli(default, skip_encoding_if = zero)] pub f127: u8,
    #[musli(name = "128")] #[musli(Text, decode_only, name = "128Td")] #[musli(mode = Custom, name = "128C")] #[musli(default, skip_encoding_if = zero)] pub f128: u8,
    #[musli(name = "129")] #[musli(Text, decode_only, name = "129Td")] #[musli(mode = Custom, encode_only, name = "129Ce")] #[musli(default, skip_encoding_if = zero)] pub f129: u8,
    #[musli(name = "130")] #[musli(Text, decode_only, name = "130Td")] #[musli(mode = Custom, decode_only, name = "130Cd")] #[musli(default, skip_encoding_if = zero)] pub f130: u8,
    #[musli(name = "131")] #[musli(mode = Custom, name = "131C")] #[musli(mode = Custom, encode_only, name = "131Ce")] #[musli(default, skip_encoding_if = zero)] pub f131: u8,
    #[musli(name = "132")] #[musli(mode = Custom, name = "132C")] #[musli(mode = Custom, decode_only, name = "132Cd")] #[musli(default, skip_encoding_if = zero)] pub f132: u8,
    #[musli(name = "133")] #[musli(mode = Custom, encode_only, name = "133Ce")] #[musli(mode = Custom, decode_only, name = "133Cd")] #[musli(default, skip_encoding_if = zero)] pub f133: u8,
    #[musli(encode_only, name = "134e")] #[musli(decode_only, name = "134d")] #[musli(Binary, name = "134B")] #[musli(default, skip_encoding_if = zero)] pub f134: u8,
    #[musli(encode_only, name = "135e")] #[musli(decode_only, name = "135d")] #[musli(Binary, encode_only, name = "135Be")] #[musli(default, skip_encoding_if = zero)] pub f135: u8,
    #[musli(encode_only, name = "136e")] #[musli(decode_only, name = "136d")] #[musli(Binary, decode_only, name = "136Bd")] #[musli(default, skip_encoding_if = zero)] pub f136: u8,
    #[musli(encode_only, name = "137e")] #[musli(decode_only, name = "137d")] #[musli(Text, name = "137T")] #[musli(default, skip_encoding_if = zero)] pub f137: u8,
    #[musli(encode_only, name = "138e")] #[musli(decode_only, name = "138d")] #[musli(Text, encode_only, name = "138Te")] #[musli(default, skip_encoding_if = zero)] pub f138: u8,
    #[musli(encode_only, name = "139e")] #[musli(decode_only, name = "139d")] #[musli(Text, decode_only, name = "139Td")] #[musli(default, skip_encoding_if = zero)] pub f139: u8,
    #[musli(encode_only, name = "140e")] #[musli(decode_only, name = "140d")] #[musli(mode = Custom, name = "140C")] #[musli(default, skip_encoding_if = zero)] pub f140: u8,
    #[musli(encode_only, name = "141e")] #[musli(decode_only, name = "141d")] #[musli(mode = Custom, encode_only, name = "141Ce")] #[musli(default, skip_encoding_if = zero)] pub f141: u8,
    #[musli(encode_only, name = "142e")] #[musli(decode_only, name = "142d")] #[musli(mode = Custom, decode_only, name = "142Cd")] #[musli(default, skip_encoding_if = zero)] pub f142: u8,
    #[musli(encode_only, name = "143e")] #[musli(Binary, name = "143B")] #[musli(Binary, encode_only, name = "143Be")] #[musli(default, skip_encoding_if = zero)] pub f143: u8,
    #[musli(encode_only, name = "144e")] #[musli(Binary, name = "144B")] #[musli(Binary, decode_only, name = "144Bd")] #[musli(default, skip_encoding_if = zero)] pub f144: u8,
    #[musli(encode_only, name = "145e")] #[musli(Binary, name = "145B")] #[musli(Text, name = "145T")] #[musli(default, skip_encoding_if = zero)] pub f145: u8,
    #[musli(encode_only, name = "146e")] #[musli(Binary, name = "146B")] #[musli(Text, encode_only, name = "146Te")] #[musli(default, skip_encoding_if = zero)] pub f146: u8,
    #[musli(encode_only, name = "147e")] #[musli(Binary, name = "147B")] #[musli(Text, decode_only, name = "147Td")] #[musli(default, skip_encoding_if = zero)] pub f147: u8,
    #[musli(encode_only, name = "148e")] #[musli(Binary, name = "148B")] #[musli(mode = Custom, name = "148C")] #[musli(default, skip_encoding_if = zero)] pub f148: u8,
    #[musli(encode_only, name = "149e")] #[musli(Binary, name = "149B")] #[musli(mode = Custom, encode_only, name = "149Ce")] #[musli(default, skip_encoding_if = zero)] pub f149: u8,
    #[musli(encode_only, name = "150e")] #[musli(Binary, name = "150B")] #[musli(mode = Custom, decode_only, name = "150Cd")] #[musli(default, skip_encoding_if = zero)] pub f150: u8,
    #[musli(encode_only, name = "151e")] #[musli(Binary, encode_only, name = "151Be")] #[musli(Binary, decode_only, name = "151Bd")] #[musli(default, skip_encoding_if = zero)] pub f151: u8,
    #[musli(encode_only, name = "152e")] #[musli(Binary, encode_only, name = "152Be")] #[musli(Text, name = "152T")] #[musli(default, skip_encoding_if = zero)] pub f152: u8,
    #[musli(encode_only, name = "153e")] #[musli(Binary, encode_only, name = "153Be")] #[musli(Text, encode_only, name = "153Te")] #[musli(default, skip_encoding_if = zero)] pub f153: u8,
    #[musli(encode_only, name = "154e")] #[musli(Binary, encode_only, name = "154Be")] #[musli(Text, decode_only, name = "154Td")] #[musli(default, skip_encoding_if = zero)] pub f154: u8,
    #[musli(encode_only, name = "155e")] #[musli(Binary, encode_only, name = "155Be")] #[musli(mode = Custom, name = "155C")] #[musli(default, skip_encoding_if = zero)] pub f155: u8,
    #[musli(encode_only, name = "156e")] #[musli(Binary, encode_only, name = "156Be")] #[musli(mode = Custom, encode_only, name = "156Ce")] #[musli(default, skip_encoding_if = zero)] pub f156: u8,
    #[musli(encode_only, name = "157e")] #[musli(Binary, encode_only, name = "157Be")] #[musli(mode = Custom, decode_only, name = "157Cd")] #[musli(default, skip_encoding_if = zero)] pub f157: u8,
    #[musli(encode_only, name = "158e")] #[musli(Binary, decode_only, name = "158Bd")] #[musli(Text, name = "158T")] #[musli(default, skip_encoding_if = zero)] pub f158: u8,
    #[musli(encode_only, name = "159e")] #[musli(Binary, decode_only, name = "159Bd")] #[musli(Text, encode_only, name = "159Te")] #[musli(default, skip_encoding_if = zero)] pub f159: u8,
    #[musli(encode_only, name = "160e")] #[musli(Binary, decode_only, name = "160Bd")] #[musli(Text, decode_only, name = "160Td")] #[musli(default, skip_encoding_if = zero)] pub f160: u8,
    #[musli(encode_only, name = "161e")] #[musli(Binary, decode_only, name = "161Bd")] #[musli(mode = Custom, name = "161C")] #[musli(default, skip_encoding_if = zero)] pub f161: u8,
    #[musli(encode_only, name = "162e")] #[musli(Binary, decode_only, name = "162Bd")] #[musli(mode = Custom, encode_only, name = "162Ce")] #[musli(default, skip_encoding_if = zero)] pub f162: u8,
    #[musli(encode_only, name = "163e")] #[musli(Binary, decode_only, name = "163Bd")] #[musli(mode = Custom, decode_only, name = "163Cd")] #[musli(default, skip_encoding_if = zero)] pub f163: u8,
    #[musli(encode_only, name = "164e")] #[musli(Text, name = "164T")] #[musli(Text, encode_only, name = "164Te")] #[musli(default, skip_encoding_if = zero)] pub f164: u8,
    #[musli(encode_only, name = "165e")] #[musli(Text, name = "165T")] #[musli(Text, decode_only, name = "165Td")] #[musli(default, skip_encoding_if = zero)] pub f165: u8,
    #[musli(encode_only, name = "166e")] #[musli(Text, name = "166T")] #[musli(mode = Custom, name = "166C")] #[musli(default, skip_encoding_if = zero)] pub f166: u8,
    #[musli(encode_only, name = "167e")] #[musli(Text, name = "167T")] #[musli(mode = Custom, encode_only, name = "167Ce")] #[musli(default, skip_encoding_if = zero)] pub f167: u8,
    #[musli(encode_only, name = "168e")] #[musli(Text, name = "168T")] #[musli(mode = Custom, decode_only, name = "168Cd")] #[musli(default, skip_encoding_if = zero)] pub f168: u8,
    #[musli(encode_only, name = "169e")] #[musli(Text, encode_only, name = "169Te")] #[musli(Text, decode_only, name = "169Td")] #[musli(default, skip_encoding_if = zero)] pub f169: u8,
    #[musli(encode_only, name = "170e")] #[musli(Text, encode_only, name = "170Te")] #[musli(mode = Custom, name = "170C")] #[musli(default, skip_encoding_if = zero)] pub f170: u8,
    #[musli(encode_only, name = "171e")] #[musli(Text, encode_only, name = "171Te")] #[musli(mode = Custom, encode_only, name = "171Ce")] #[musli(default, skip_encoding_if = zero)] pub f171: u8,
    #[musli(encode_only, name = "172e")] #[musli(Text, encode_only, name = "172Te")] #[musli(mode = Custom, decode_only, name = "172Cd")] #[musli(default, skip_encoding_if = zero)] pub f172: u8,
    #[musli(encode_only, name = "173e")] #[musli(Text, decode_only, name = "173Td")] #[musli(mode = Custom, name = "173C")] #[musli(default, skip_encoding_if = zero)] pub f173: u8,
    #[musli(encode_only, name = "174e")] #[musli(Text, decode_only, name = "174Td")] #[musli(mode = Custom, encode_only, name = "174Ce")] #[musli(default, skip_encoding_if = zero)] pub f174: u8,
    #[musli(encode_only, name = "175e")] #[musli(Text, decode_only, name = "175Td")] #[musli(mode = Custom, decode_only, name = "175Cd")] #[musli(default, skip_encoding_if = zero)] pub f175: u8,
    #[musli(encode_only, name = "176e")] #[musli(mode = Custom, name = "176C")] #[musli(mode = Custom, encode_only, name = "176Ce")] #[musli(default, skip_encoding_if = zero)] pub f176: u8,
    #[musli(encode_only, name = "177e")] #[musli(mode = Custom, name = "177C")] #[musli(mode = Custom, decode_only, name = "177Cd")] #[musli(default, skip_encoding_if = zero)] pub f177: u8,
    #[musli(encode_only, name = "178e")] #[musli(mode = Custom, encode_only, name = "178Ce")] #[musli(mode = Custom, decode_only, name = "178Cd")] #[musli(default, skip_encoding_if = zero)] pub f178: u8,
    #[musli(decode_only, name = "179d")] #[musli(Binary, name = "179B")] #[musli(Binary, encode_only, name = "179Be")] #[musli(default, skip_encoding_if = zero)] pub f179: u8,
}
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub enum Unit2 {
    #[musli(name = "120")] #[musli(Text, name = "120T")] #[musli(Text, decode_only, name = "120Td")] f120,
    #[musli(name = "121")] #[musli(Text, name = "121T")] #[musli(mode = Custom, name = "121C")] f121,
    #[musli(name = "122")] #[musli(Text, name = "122T")] #[musli(mode = Custom, encode_only, name = "122Ce")] f122,
    #[musli(name = "123")] #[musli(Text, name = "123T")] #[musli(mode = Custom, decode_only, name = "123Cd")] f123,
    #[musli(name = "124")] #[musli(Text, encode_only, name = "124Te")] #[musli(Text, decode_only, name = "124Td")] f124,
    #[musli(name = "125")] #[musli(Text, encode_only, name = "125Te")] #[musli(mode = Custom, name = "125C")] f125,
    #[musli(name = "126")] #[musli(Text, encode_only, name = "126Te")] #[musli(mode = Custom, encode_only, name = "126Ce")] f126,
    #[musli(name = "127")] #[musli(Text, encode_only, name = "127Te")] #[musli(mode = Custom, decode_only, name = "127Cd")] f127,
    #[musli(name = "128")] #[musli(Text, decode_only, name = "128Td")] #[musli(mode = Custom, name = "128C")] f128,
    #[musli(name = "129")] #[musli(Text, decode_only, name = "129Td")] #[musli(mode = Custom, encode_only, name = "129Ce")] f129,
    #[musli(name = "130")] #[musli(Text, decode_only, name = "130Td")] #[musli(mode = Custom, decode_only, name = "130Cd")] f130,
    #[musli(name = "131")] #[musli(mode = Custom, name = "131C")] #[musli(mode = Custom, encode_only, name = "131Ce")] f131,
    #[musli(name = "132")] #[musli(mode = Custom, name = "132C")] #[musli(mode = Custom, decode_only, name = "132Cd")] f132,
    #[musli(name = "133")] #[musli(mode = Custom, encode_only, name = "133Ce")] #[musli(mode = Custom, decode_only, name = "133Cd")] f133,
    #[musli(encode_only, name = "134e")] #[musli(decode_only, name = "134d")] #[musli(Binary, name = "134B")] f134,
    #[musli(encode_only, name = "135e")] #[musli(decode_only, name = "135d")] #[musli(Binary, encode_only, name = "135Be")] f135,
    #[musli(encode_only, name = "136e")] #[musli(decode_only, name = "136d")] #[musli(Binary, decode_only, name = "136Bd")] f136,
    #[musli(encode_only, name = "137e")] #[musli(decode_only, name = "137d")] #[musli(Text, name = "137T")] f137,
    #[musli(encode_only, name = "138e")] #[musli(decode_only, name = "138d")] #[musli(Text, encode_only, name = "138Te")] f138,
    #[musli(encode_only, name = "139e")] #[musli(decode_only, name = "139d")] #[musli(Text, decode_only, name = "139Td")] f139,
    #[musli(encode_only, name = "140e")] #[musli(decode_only, name = "140d")] #[musli(mode = Custom, name = "140C")] f140,
    #[musli(encode_only, name = "141e")] #[musli(decode_only, name = "141d")] #[musli(mode = Custom, encode_only, name = "141Ce")] f141,
    #[musli(encode_only, name = "142e")] #[musli(decode_only, name = "142d")] #[musli(mode = Custom, decode_only, name = "142Cd")] f142,
    #[musli(encode_only, name = "143e")] #[musli(Binary, name = "143B")] #[musli(Binary, encode_only, name = "143Be")] f143,
    #[musli(encode_only, name = "144e")] #[musli(Binary, name = "144B")] #[musli(Binary, decode_only, name = "144Bd")] f144,
    #[musli(encode_only, name = "145e")] #[musli(Binary, name = "145B")] #[musli(Text, name = "145T")] f145,
    #[musli(encode_only, name = "146e")] #[musli(Binary, name = "146B")] #[musli(Text, encode_only, name = "146Te")] f146,
    #[musli(encode_only, name = "147e")] #[musli(Binary, name = "147B")] #[musli(Text, decode_only, name = "147Td")] f147,
    #[musli(encode_only, name = "148e")] #[musli(Binary, name = "148B")] #[musli(mode = Custom, name = "148C")] f148,
    #[musli(encode_only, name = "149e")] #[musli(Binary, name = "149B")] #[musli(mode = Custom, encode_only, name = "149Ce")] f149,
    #[musli(encode_only, name = "150e")] #[musli(Binary, name = "150B")] #[musli(mode = Custom, decode_only, name = "150Cd")] f150,
    #[musli(encode_only, name = "151e")] #[musli(Binary, encode_only, name = "151Be")] #[musli(Binary, decode_only, name = "151Bd")] f151,
    #[musli(encode_only, name = "152e")] #[musli(Binary, encode_only, name = "152Be")] #[musli(Text, name = "152T")] f152,
    #[musli(encode_only, name = "153e")] #[musli(Binary, encode_only, name = "153Be")] #[musli(Text, encode_only, name = "153Te")] f153,
    #[musli(encode_only, name = "154e")] #[musli(Binary, encode_only, name = "154Be")] #[musli(Text, decode_only, name = "154Td")] f154,
    #[musli(encode_only, name = "155e")] #[musli(Binary, encode_only, name = "155Be")] #[musli(mode = Custom, name = "155C")] f155,
    #[musli(encode_only, name = "156e")] #[musli(Binary, encode_only, name = "156Be")] #[musli(mode = Custom, encode_only, name = "156Ce")] f156,
    #[musli(encode_only, name = "157e")] #[musli(Binary, encode_only, name = "157Be")] #[musli(mode = Custom, decode_only, name = "157Cd")] f157,
    #[musli(encode_only, name = "158e")] #[musli(Binary, decode_only, name = "158Bd")] #[musli(Text, name = "158T")] f158,
    #[musli(encode_only, name = "159e")] #[musli(Binary, decode_only, name = "159Bd")] #[musli(Text, encode_only, name = "159Te")] f159,
    #[musli(encode_only, name = "160e")] #[musli(Binary, decode_only, name = "160Bd")] #[musli(Text, decode_only, name = "160Td")] f160,
    #[musli(encode_only, name = "161e")] #[musli(Binary, decode_only, name = "161Bd")] #[musli(mode = Custom, name = "161C")] f161,
    #[musli(encode_only, name = "162e")] #[musli(Binary, decode_only, name = "162Bd")] #[musli(mode = Custom, encode_only, name = "162Ce")] f162,
    #[musli(encode_only, name = "163e")] #[musli(Binary, decode_only, name = "163Bd")] #[musli(mode = Custom, decode_only, name = "163Cd")] f163,
    #[musli(encode_only, name = "164e")] #[musli(Text, name = "164T")] #[musli(Text, encode_only, name = "164Te")] f164,
    #[musli(encode_only, name = "165e")] #[musli(Text, name = "165T")] #[musli(Text, decode_only, name = "165Td")] f165,
    #[musli(encode_only, name = "166e")] #[musli(Text, name = "166T")] #[musli(mode = Custom, name = "166C")] f166,
    #[musli(encode_only, name = "167e")] #[musli(Text, name = "167T")] #[musli(mode = Custom, encode_only, name = "167Ce")] f167,
    #[musli(encode_only, name = "168e")] #[musli(Text, name = "168T")] #[musli(mode = Custom, decode_only, name = "168Cd")] f168,
    #[musli(encode_only, name = "169e")] #[musli(Text, encode_only, name = "169Te")] #[musli(Text, decode_only, name = "169Td")] f169,
    #[musli(encode_only, name = "170e")] #[musli(Text, encode_only, name = "170Te")] #[musli(mode = Custom, name = "170C")] f170,
    #[musli(encode_only, name = "171e")] #[musli(Text, encode_only, name = "171Te")] #[musli(mode = Custom, encode_only, name = "171Ce")] f171,
    #[musli(encode_only, name = "172e")] #[musli(Text, encode_only, name = "172Te")] #[musli(mode = Custom, decode_only, name = "172Cd")] f172,
    #[musli(encode_only, name = "173e")] #[musli(Text, decode_only, name = "173Td")] #[musli(mode = Custom, name = "173C")] f173,
    #[musli(encode_only, name = "174e")] #[musli(Text, decode_only, name = "174Td")] #[musli(mode = Custom, encode_only, name = "174Ce")] f174,
    #[musli(encode_only, name = "175e")] #[musli(Text, decode_only, name = "175Td")] #[musli(mode = Custom, decode_only, name = "175Cd")] f175,
    #[musli(encode_only, name = "176e")] #[musli(mode = Custom, name = "176C")] #[musli(mode = Custom, encode_only, name = "176Ce")] f176,
    #[musli(encode_only, name = "177e")] #[musli(mode = Custom, name = "177C")] #[musli(mode = Custom, decode_only, name = "177Cd")] f177,
    #[musli(encode_only, name = "178e")] #[musli(mode = Custom, encode_only, name = "178Ce")] #[musli(mode = Custom, decode_only, name = "178Cd")] f178,
    #[musli(decode_only, name = "179d")] #[musli(Binary, name = "179B")] #[musli(Binary, encode_only, name = "179Be")] f179,
}
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub enum Full2 {
    #[musli(name = "120")] #[musli(Text, name = "120T")] #[musli(Text, decode_only, name = "120Td")] f120 { x: u8 },
    #[musli(name = "121")] #[musli(Text, name = "121T")] #[musli(mode = Custom, name = "121C")] f121 { x: u8 },
    #[musli(name = "122")] #[musli(Text, name = "122T")] #[musli(mode = Custom, encode_only, name = "122Ce")] f122 { x: u8 },
    #[musli(name = "123")] #[musli(Text, name = "123T")] #[musli(mode = Custom, decode_only, name = "123Cd")] f123 { x: u8 },
    #[musli(name = "124")] #[musli(Text, encode_only, name = "124Te")] #[musli(Text, decode_only, name = "124Td")] f124 { x: u8 },
    #[musli(name = "125")] #[musli(Text, encode_only, name = "125Te")] #[musli(mode = Custom, name = "125C")] f125 { x: u8 },
    #[musli(name = "126")] #[musli(Text, encode_only, name = "126Te")] #[musli(mode = Custom, encode_only, name = "126Ce")] f126 { x: u8 },
    #[musli(name = "127")] #[musli(Text, encode_only, name = "127Te")] #[musli(mode = Custom, decode_only, name = "127Cd")] f127 { x: u8 },
    #[musli(name = "128")] #[musli(Text, decode_only, name = "128Td")] #[musli(mode = Custom, name = "128C")] f128 { x: u8 },
    #[musli(name = "129")] #[musli(Text, decode_only, name = "129Td")] #[musli(mode = Custom, encode_only, name = "129Ce")] f129 { x: u8 },
    #[musli(name = "130")] #[musli(Text, decode_only, name = "130Td")] #[musli(mode = Custom, decode_only, name = "130Cd")] f130 { x: u8 },
    #[musli(name = "131")] #[musli(mode = Custom, name = "131C")] #[musli(mode = Custom, encode_only, name = "131Ce")] f131 { x: u8 },
    #[musli(name = "132")] #[musli(mode = Custom, name = "132C")] #[musli(mode = Custom, decode_only, name = "132Cd")] f132 { x: u8 },
    #[musli(name = "133")] #[musli(mode = Custom, encode_only, name = "133Ce")] #[musli(mode = Custom, decode_only, name = "133Cd")] f133 { x: u8 },
    #[musli(encode_only, name = "134e")] #[musli(decode_only, name = "134d")] #[musli(Binary, name = "134B")] f134 { x: u8 },
    #[musli(encode_only, name = "135e")] #[musli(decode_only, name = "135d")] #[musli(Binary, encode_only, name = "135Be")] f135 { x: u8 },
    #[musli(encode_only, name = "136e")] #[musli(decode_only, name = "136d")] #[musli(Binary, decode_only, name = "136Bd")] f136 { x: u8 },
    #[musli(encode_only, name = "137e")] #[musli(decode_only, name = "137d")] #[musli(Text, name = "137T")] f137 { x: u8 },
    #[musli(encode_only, name = "138e")] #[musli(decode_only, name = "138d")] #[musli(Text, encode_only, name = "138Te")] f138 { x: u8 },
    #[musli(encode_only, name = "139e")] #[musli(decode_only, name = "139d")] #[musli(Text, decode_only, name = "139Td")] f139 { x: u8 },
    #[musli(encode_only, name = "140e")] #[musli(decode_only, name = "140d")] #[musli(mode = Custom, name = "140C")] f140 { x: u8 },
    #[musli(encode_only, name = "141e")] #[musli(decode_only, name = "141d")] #[musli(mode = Custom, encode_only, name = "141Ce")] f141 { x: u8 },
    #[musli(encode_only, name = "142e")] #[musli(decode_only, name = "142d")] #[musli(mode = Custom, decode_only, name = "142Cd")] f142 { x: u8 },
    #[musli(encode_only, name = "143e")] #[musli(Binary, name = "143B")] #[musli(Binary, encode_only, name = "143Be")] f143 { x: u8 },
    #[musli(encode_only, name = "144e")] #[musli(Binary, name = "144B")] #[musli(Binary, decode_only, name = "144Bd")] f144 { x: u8 },
    #[musli(encode_only, name = "145e")] #[musli(Binary, name = "145B")] #[musli(Text, name = "145T")] f145 { x: u8 },
    #[musli(encode_only, name = "146e")] #[musli(Binary, name = "146B")] #[musli(Text, encode_only, name = "146Te")] f146 { x: u8 },
    #[musli(encode_only, name = "147e")] #[musli(Binary, name = "147B")] #[musli(Text, decode_only, name = "147Td")] f147 { x: u8 },
    #[musli(encode_only, name = "148e")] #[musli(Binary, name = "148B")] #[musli(mode = Custom, name = "148C")] f148 { x: u8 },
    #[musli(encode_only, name = "149e")] #[musli(Binary, name = "149B")] #[musli(mode = Custom, encode_only, name = "149Ce")] f149 { x: u8 },
    #[musli(encode_only, name = "150e")] #[musli(Binary, name = "150B")] #[musli(mode = Custom, decode_only, name = "150Cd")] f150 { x: u8 },
    #[musli(encode_only, name = "151e")] #[musli(Binary, encode_only, name = "151Be")] #[musli(Binary, decode_only, name = "151Bd")] f151 { x: u8 },
    #[musli(encode_only, name = "152e")] #[musli(Binary, encode_only, name = "152Be")] #[musli(Text, name = "152T")] f152 { x: u8 },
    #[musli(encode_only, name = "153e")] #[musli(Binary, encode_only, name = "153Be")] #[musli(Text, encode_only, name = "153Te")] f153 { x: u8 },
    #[musli(encode_only, name = "154e")] #[musli(Binary, encode_only, name = "154Be")] #[musli(Text, decode_only, name = "154Td")] f154 { x: u8 },
    #[musli(encode_only, name = "155e")] #[musli(Binary, encode_only, name = "155Be")] #[musli(mode = Custom, name = "155C")] f155 { x: u8 },
    #[musli(encode_only, name = "156e")] #[musli(Binary, encode_only, name = "156Be")] #[musli(mode = Custom, encode_only, name = "156Ce")] f156 { x: u8 },
    #[musli(encode_only, name = "157e")] #[musli(Binary, encode_only, name = "157Be")] #[musli(mode = Custom, decode_only, name = "157Cd")] f157 { x: u8 },
    #[musli(encode_only, name = "158e")] #[musli(Binary, decode_only, name = "158Bd")] #[musli(Text, name = "158T")] f158 { x: u8 },
    #[musli(encode_only, name = "159e")] #[musli(Binary, decode_only, name = "159Bd")] #[musli(Text, encode_only, name = "159Te")] f159 { x: u8 },
    #[musli(encode_only, name = "160e")] #[musli(Binary, decode_only, name = "160Bd")] #[musli(Text, decode_only, name = "160Td")] f160 { x: u8 },
    #[musli(encode_only, name = "161e")] #[musli(Binary, decode_only, name = "161Bd")] #[musli(mode = Custom, name = "161C")] f161 { x: u8 },
    #[musli(encode_only, name = "162e")] #[musli(Binary, decode_only, name = "162Bd")] #[musli(mode = Custom, encode_only, name = "162Ce")] f162 { x: u8 },
    #[musli(encode_only, name = "163e")] #[musli(Binary, decode_only, name = "163Bd")] #[musli(mode = Custom, decode_only, name = "163Cd")] f163 { x: u8 },
    #[musli(encode_only, name = "164e")] #[musli(Text, name = "164T")] #[musli(Text, encode_only, name = "164Te")] f164 { x: u8 },
    #[musli(encode_only, name = "165e")] #[musli(Text, name = "165T")] #[musli(Text, decode_only, name = "165Td")] f165 { x: u8 },
    #[musli(encode_only, name = "166e")] #[musli(Text, name = "166T")] #[musli(mode = Custom, name = "166C")] f166 { x: u8 },
    #[musli(encode_only, name = "167e")] #[musli(Text, name = "167T")] #[musli(mode = Custom, encode_only, name = "167Ce")] f167 { x: u8 },
    #[musli(encode_only, name = "168e")] #[musli(Text, name = "168T")] #[musli(mode = Custom, decode_only, name = "168Cd")] f168 { x: u8 },
    #[musli(encode_only, name = "169e")] #[musli(Text, encode_only, name = "169Te")] #[musli(Text, decode_only, name = "169Td")] f169 { x: u8 },
    #[musli(encode_only, name = "170e")] #[musli(Text, encode_only, name = "170Te")] #[musli(mode = Custom, name = "170C")] f170 { x: u8 },
    #[musli(encode_only, name = "171e")] #[musli(Text, encode_only, name = "171Te")] #[musli(mode = Custom, encode_only, name = "171Ce")] f171 { x: u8 },
    #[musli(encode_only, name = "172e")] #[musli(Text, encode_only, name = "172Te")] #[musli(mode = Custom, decode_only, name = "172Cd")] f172 { x: u8 },
    #[musli(encode_only, name = "173e")] #[musli(Text, decode_only, name = "173Td")] #[musli(mode = Custom, name = "173C")] f173 { x: u8 },
    #[musli(encode_only, name = "174e")] #[musli(Text, decode_only, name = "174Td")] #[musli(mode = Custom, encode_only, name = "174Ce")] f174 { x: u8 },
    #[musli(encode_only, name = "175e")] #[musli(Text, decode_only, name = "175Td")] #[musli(mode = Custom, decode_only, name = "175Cd")] f175 { x: u8 },
    #[musli(encode_only, name = "176e")] #[musli(mode = Custom, name = "176C")] #[musli(mode = Custom, encode_only, name = "176Ce")] f176 { x: u8 },
    #[musli(encode_only, name = "177e")] #[musli(mode = Custom, name = "177C")] #[musli(mode = Custom, decode_only, name = "177Cd")] f177 { x: u8 },
    #[musli(encode_only, name = "178e")] #[musli(mode = Custom, encode_only, name = "178Ce")] #[musli(mode = Custom, decode_only, name = "178Cd")] f178 { x: u8 },
    #[musli(decode_only, name = "179d")] #[musli(Binary, name = "179B")] #[musli(Binary, encode_only, name = "179Be")] f179 { x: u8 },
}
impl Part for Fields2 {
    const NAME: &'static str = "field";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (120, Self { f120: 200, ..Self::default() }),
            (121, Self { f121: 200, ..Self::default() }),
            (122, Self { f122: 200, ..Self::default() }),
            (123, Self { f123: 200, ..Self::default() }),
            (124, Self { f124: 200, ..Self::default() }),
            (125, Self { f125: 200, ..Self::default() }),
            (126, Self { f126: 200, ..Self::default() }),
            (127, Self { f127: 200, ..Self::default() }),
            (128, Self { f128: 200, ..Self::default() }),
            (129, Self { f129: 200, ..Self::default() }),
            (130, Self { f130: 200, ..Self::default() }),
            (131, Self { f131: 200, ..Self::default() }),
            (132, Self { f132: 200, ..Self::default() }),
            (133, Self { f133: 200, ..Self::default() }),
            (134, Self { f134: 200, ..Self::default() }),
            (135, Self { f135: 200, ..Self::default() }),
            (136, Self { f136: 200, ..Self::default() }),
            (137, Self { f137: 200, ..Self::default() }),
            (138, Self { f138: 200, ..Self::default() }),
            (139, Self { f139: 200, ..Self::default() }),
            (140, Self { f140: 200, ..Self::default() }),
            (141, Self { f141: 200, ..Self::default() }),
            (142, Self { f142: 200, ..Self::default() }),
            (143, Self { f143: 200, ..Self::default() }),
            (144, Self { f144: 200, ..Self::default() }),
            (145, Self { f145: 200, ..Self::default() }),
            (146, Self { f146: 200, ..Self::default() }),
            (147, Self { f147: 200, ..Self::default() }),
            (148, Self { f148: 200, ..Self::default() }),
            (149, Self { f149: 200, ..Self::default() }),
            (150, Self { f150: 200, ..Self::default() }),
            (151, Self { f151: 200, ..Self::default() }),
            (152, Self { f152: 200, ..Self::default() }),
            (153, Self { f153: 200, ..Self::default() }),
            (154, Self { f154: 200, ..Self::default() }),
            (155, Self { f155: 200, ..Self::default() }),
            (156, Self { f156: 200, ..Self::default() }),
            (157, Self { f157: 200, ..Self::default() }),
            (158, Self { f158: 200, ..Self::default() }),
            (159, Self { f159: 200, ..Self::default() }),
            (160, Self { f160: 200, ..Self::default() }),
            (161, Self { f161: 200, ..Self::default() }),
            (162, Self { f162: 200, ..Self::default() }),
            (163, Self { f163: 200, ..Self::default() }),
            (164, Self { f164: 200, ..Self::default() }),
            (165, Self { f165: 200, ..Self::default() }),
            (166, Self { f166: 200, ..Self::default() }),
            (167, Self { f167: 200, ..Self::default() }),
            (168, Self { f168: 200, ..Self::default() }),
            (169, Self { f169: 200, ..Self::default() }),
            (170, Self { f170: 200, ..Self::default() }),
            (171, Self { f171: 200, ..Self::default() }),
            (172, Self { f172: 200, ..Self::default() }),
            (173, Self { f173: 200, ..Self::default() }),
            (174, Self { f174: 200, ..Self::default() }),
            (175, Self { f175: 200, ..Self::default() }),
            (176, Self { f176: 200, ..Self::default() }),
            (177, Self { f177: 200, ..Self::default() }),
            (178, Self { f178: 200, ..Self::default() }),
            (179, Self { f179: 200, ..Self::default() }),
        ]
    }
    fn with(name: &str, _: Den) -> Den {
        Den::Map(vec![(Den::str(name), Den::U8(200))])
    }
}
impl Part for Unit2 {
    const NAME: &'static str = "unit";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (120, Self::f120),
            (121, Self::f121),
            (122, Self::f122),
            (123, Self::f123),
            (124, Self::f124),
            (125, Self::f125),
            (126, Self::f126),
            (127, Self::f127),
            (128, Self::f128),
            (129, Self::f129),
            (130, Self::f130),
            (131, Self::f131),
            (132, Self::f132),
            (133, Self::f133),
            (134, Self::f134),
            (135, Self::f135),
            (136, Self::f136),
            (137, Self::f137),
            (138, Self::f138),
            (139, Self::f139),
            (140, Self::f140),
            (141, Self::f141),
            (142, Self::f142),
            (143, Self::f143),
            (144, Self::f144),
            (145, Self::f145),
            (146, Self::f146),
            (147, Self::f147),
            (148, Self::f148),
            (149, Self::f149),
            (150, Self::f150),
            (151, Self::f151),
            (152, Self::f152),
            (153, Self::f153),
            (154, Self::f154),
            (155, Self::f155),
            (156, Self::f156),
            (157, Self::f157),
            (158, Self::f158),
            (159, Self::f159),
            (160, Self::f160),
            (161, Self::f161),
            (162, Self::f162),
            (163, Self::f163),
            (164, Self::f164),
            (165, Self::f165),
            (166, Self::f166),
            (167, Self::f167),
            (168, Self::f168),
            (169, Self::f169),
            (170, Self::f170),
            (171, Self::f171),
            (172, Self::f172),
            (173, Self::f173),
            (174, Self::f174),
            (175, Self::f175),
            (176, Self::f176),
            (177, Self::f177),
            (178, Self::f178),
            (179, Self::f179),
        ]
    }
    fn with(name: &str, _: Den) -> Den {
        Den::str(name)
    }
}
impl Part for Full2 {
    const NAME: &'static str = "variant";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (120, Self::f120 { x: 201 }),
            (121, Self::f121 { x: 201 }),
            (122, Self::f122 { x: 201 }),
            (123, Self::f123 { x: 201 }),
            (124, Self::f124 { x: 201 }),
            (125, Self::f125 { x: 201 }),
            (126, Self::f126 { x: 201 }),
            (127, Self::f127 { x: 201 }),
            (128, Self::f128 { x: 201 }),
            (129, Self::f129 { x: 201 }),
            (130, Self::f130 { x: 201 }),
            (131, Self::f131 { x: 201 }),
            (132, Self::f132 { x: 201 }),
            (133, Self::f133 { x: 201 }),
            (134, Self::f134 { x: 201 }),
            (135, Self::f135 { x: 201 }),
            (136, Self::f136 { x: 201 }),
            (137, Self::f137 { x: 201 }),
            (138, Self::f138 { x: 201 }),
            (139, Self::f139 { x: 201 }),
            (140, Self::f140 { x: 201 }),
            (141, Self::f141 { x: 201 }),
            (142, Self::f142 { x: 201 }),
            (143, Self::f143 { x: 201 }),
            (144, Self::f144 { x: 201 }),
            (145, Self::f145 { x: 201 }),
            (146, Self::f146 { x: 201 }),
            (147, Self::f147 { x: 201 }),
            (148, Self::f148 { x: 201 }),
            (149, Self::f149 { x: 201 }),
            (150, Self::f150 { x: 201 }),
            (151, Self::f151 { x: 201 }),
            (152, Self::f152 { x: 201 }),
            (153, Self::f153 { x: 201 }),
            (154, Self::f154 { x: 201 }),
            (155, Self::f155 { x: 201 }),
            (156, Self::f156 { x: 201 }),
            (157, Self::f157 { x: 201 }),
            (158, Self::f158 { x: 201 }),
            (159, Self::f159 { x: 201 }),
            (160, Self::f160 { x: 201 }),
            (161, Self::f161 { x: 201 }),
            (162, Self::f162 { x: 201 }),
            (163, Self::f163 { x: 201 }),
            (164, Self::f164 { x: 201 }),
            (165, Self::f165 { x: 201 }),
            (166, Self::f166 { x: 201 }),
            (167, Self::f167 { x: 201 }),
            (168, Self::f168 { x: 201 }),
            (169, Self::f169 { x: 201 }),
            (170, Self::f170 { x: 201 }),
            (171, Self::f171 { x: 201 }),
            (172, Self::f172 { x: 201 }),
            (173, Self::f173 { x: 201 }),
            (174, Self::f174 { x: 201 }),
            (175, Self::f175 { x: 201 }),
            (176, Self::f176 { x: 201 }),
            (177, Self::f177 { x: 201 }),
            (178, Self::f178 { x: 201 }),
            (179, Self::f179 { x: 201 }),
        ]
    }
    fn with(name: &str, x: Den) -> Den {
        Den::var(Den::str(name), Den::Map(vec![(x, Den::U8(201))]))
    }
}
#[derive(Debug, Clone, PartialEq, Default, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub struct Fields3 {
    #[musli(decode_only, name = "180d")] #[musli(Binary, name = "180B")] #[musli(Binary, decode_only, name = "180Bd")] #[musli(default, skip_encoding_if = zero)] pub f180: u8,
    #[musli(decode_only, name = "181d")] #[musli(Binary, name = "181B")] #[musli(Text, name = "181T")] #[musli(default, skip_encoding_if = zero)] pub f181: u8,
    #[musli(decode_only, name = "182d")] #[musli(Binary, name = "182B")] #[musli(Text, encode_only, name = "182Te")] #[musli(default, skip_encoding_if = zero)] pub f182: u8,
    #[musli(decode_only, name = "183d")] #[musli(Binary, name = "183B")] #[musli(Text, decode_only, name = "183Td")] #[musli(default, skip_encoding_if = zero)] pub f183: u8,
    #[musli(decode_only, name = "184d")] #[musli(Binary, name = "184B")] #[musli(mode = Custom, name = "184C")] #[musli(default, skip_encoding_if = zero)] pub f184: u8,
    #[musli(decode_only, name = "185d")] #[musli(Binary, name = "185B")] #[musli(mode = Custom, encode_only, name = "185Ce")] #[musli(default, skip_encoding_if = zero)] pub f185: u8,
    #[musli(decode_only, name = "186d")] #[musli(Binary, name = "186B")] #[musli(mode = Custom, decode_only, name = "186Cd")] #[musli(default, skip_encoding_if = zero)] pub f186: u8,
    #[musli(decode_only, name = "187d")] #[musli(Binary, encode_only, name = "187Be")] #[musli(Binary, decode_only, name = "187Bd")] #[musli(default, skip_encoding_if = zero)] pub f187: u8,
    #[musli(decode_only, name = "188d")] #[musli(Binary, encode_only, name = "188Be")] #[musli(Text, name = "188T")] #[musli(default, skip_encoding_if = zero)] pub f188: u8,
    #[musli(decode_only, name = "189d")] #[musli(Binary, encode_only, name = "189Be")] #[musli(Text, encode_only, name = "189Te")] #[musli(default, skip_encoding_if = zero)] pub f189: u8,
    #[musli(decode_only, name = "190d")] #[musli(Binary, encode_only, name = "190Be")] #[musli(Text, decode_only, name = "190Td")] #[musli(default, skip_encoding_if = zero)] pub f190: u8,
    #[musli(decode_only, name = "191d")] #[musli(Binary, encode_only, name = "191Be")] #[musli(mode = Custom, name = "191C")] #[musli(default, skip_encoding_if = zero)] pub f191: u8,
    #[musli(decode_only, name = "192d")] #[musli(Binary, encode_only, name = "192Be")] #[musli(mode = Custom, encode_only, name = "192Ce")] #[musli(default, skip_encoding_if = zero)] pub f192: u8,
    #[musli(decode_only, name = "193d")] #[musli(Binary, encode_only, name = "193Be")] #[musli(mode = Custom, decode_only, name = "193Cd")] #[musli(default, skip_encoding_if = zero)] pub f193: u8,
    #[musli(decode_only, name = "194d")] #[musli(Binary, decode_only, name = "194Bd")] #[musli(Text, name = "194T")] #[musli(default, skip_encoding_if = zero)] pub f194: u8,
    #[musli(decode_only, name = "195d")] #[musli(Binary, decode_only, name = "195Bd")] #[musli(Text, encode_only, name = "195Te")] #[musli(default, skip_encoding_if = zero)] pub f195: u8,
    #[musli(decode_only, name = "196d")] #[musli(Binary, decode_only, name = "196Bd")] #[musli(Text, decode_only, name = "196Td")] #[musli(default, skip_encoding_if = zero)] pub f196: u8,
    #[musli(decode_only, name = "197d")] #[musli(Binary, decode_only, name = "197Bd")] #[musli(mode = Custom, name = "197C")] #[musli(default, skip_encoding_if = zero)] pub f197: u8,
    #[musli(decode_only, name = "198d")] #[musli(Binary, decode_only, name = "198Bd")] #[musli(mode = Custom, encode_only, name = "198Ce")] #[musli(default, skip_encoding_if = zero)] pub f198: u8,
    #[musli(decode_only, name = "199d")] #[musli(Binary, decode_only, name = "199Bd")] #[musli(mode = Custom, decode_only, name = "199Cd")] #[musli(default, skip_encoding_if = zero)] pub f199: u8,
    #[musli(decode_only, name = "200d")] #[musli(Text, name = "200T")] #[musli(Text, encode_only, name = "200Te")] #[musli(default, skip_encoding_if = zero)] pub f200: u8,
    #[musli(decode_only, name = "201d")] #[musli(Text, name = "201T")] #[musli(Text, decode_only, name = "201Td")] #[musli(default, skip_encoding_if = zero)] pub f201: u8,
    #[musli(decode_only, name = "202d")] #[musli(Text, name = "202T")] #[musli(mode = Custom, name = "202C")] #[musli(default, skip_encoding_if = zero)] pub f202: u8,
    #[musli(decode_only, name = "203d")] #[musli(Text, name = "203T")] #[musli(mode = Custom, encode_only, name = "203Ce")] #[musli(default, skip_encoding_if = zero)] pub f203: u8,
    #[musli(decode_only, name = "204d")] #[musli(Text, name = "204T")] #[musli(mode = Custom, decode_only, name = "204Cd")] #[musli(default, skip_encoding_if = zero)] pub f204: u8,
    #[musli(decode_only, name = "205d")] #[musli(Text, encode_only, name = "205Te")] #[musli(Text, decode_only, name = "205Td")] #[musli(default, skip_encoding_if = zero)] pub f205: u8,
    #[musli(decode_only, name = "206d")] #[musli(Text, encode_only, name = "206Te")] #[musli(mode = Custom, name = "206C")] #[musli(default, skip_encoding_if = zero)] pub f206: u8,
    #[musli(decode_only, name = "207d")] #[musli(Text, encode_only, name = "207Te")] #[musli(mode = Custom, encode_only, name = "207Ce")] #[musli(default, skip_encoding_if = zero)] pub f207: u8,
    #[musli(decode_only, name = "208d")] #[musli(Text, encode_only, name = "208Te")] #[musli(mode = Custom, decode_only, name = "208Cd")] #[musli(default, skip_encoding_if = zero)] pub f208: u8,
    #[musli(decode_only, name = "209d")] #[musli(Text, decode_only, name = "209Td")] #[musli(mode = Custom, name = "209C")] #[musli(default, skip_encoding_if = zero)] pub f209: u8,
    #[musli(decode_only, name = "210d")] #[musli(Text, decode_only, name = "210Td")] #[musli(mode = Custom, encode_only, name = "210Ce")] #[musli(default, skip_encoding_if = zero)] pub f210: u8,
    #[musli(decode_only, name = "211d")] #[musli(Text, decode_only, name = "211Td")] #[musli(mode = Custom, decode_only, name = "211Cd")] #[musli(default, skip_encoding_if = zero)] pub f211: u8,
    #[musli(decode_only, name = "212d")] #[musli(mode = Custom, name = "212C")] #[musli(mode = Custom, encode_only, name = "212Ce")] #[musli(default, skip_encoding_if = zero)] pub f212: u8,
    #[musli(decode_only, name = "213d")] #[musli(mode = Custom, name = "213C")] #[musli(mode = Custom, decode_only, name = "213Cd")] #[musli(default, skip_encoding_if = zero)] pub f213: u8,
    #[musli(decode_only, name = "214d")] #[musli(mode = Custom, encode_only, name = "214Ce")] #[musli(mode = Custom, decode_only, name = "214Cd")] #[musli(default, skip_encoding_if = zero)] pub f214: u8,
    #[musli(Binary, name = "215B")] #[musli(Binary, encode_only, name = "215Be")] #[musli(Binary, decode_only, name = "215Bd")] #[musli(default, skip_encoding_if = zero)] pub f215: u8,
    #[musli(Binary, name = "216B")] #[musli(Binary, encode_only, name = "216Be")] #[musli(Text, name = "216T")] #[musli(default, skip_encoding_if = zero)] pub f216: u8,
    #[musli(Binary, name = "217B")] #[musli(Binary, encode_only, name = "217Be")] #[musli(Text, encode_only, name = "217Te")] #[musli(default, skip_encoding_if = zero)] pub f217: u8,
    #[musli(Binary, name = "218B")] #[musli(Binary, encode_only, name = "218Be")] #[musli(Text, decode_only, name = "218Td")] #[musli(default, skip_encoding_if = zero)] pub f218: u8,
    #[musli(Binary, name = "219B")] #[musli(Binary, encode_only, name = "219Be")] #[musli(mode = Custom, name = "219C")] #[musli(default, skip_encoding_if = zero)] pub f219: u8,
    #[musli(Binary, name = "220B")] #[musli(Binary, encode_only, name = "220Be")] #[musli(mode = Custom, encode_only, name = "220Ce")] #[musli(default, skip_encoding_if = zero)] pub f220: u8,
    #[musli(Binary, name = "221B")] #[musli(Binary, encode_only, name = "221Be")] #[musli(mode = Custom, decode_only, name = "221Cd")] #[musli(default, skip_encoding_if = zero)] pub f221: u8,
    #[musli(Binary, name = "222B")] #[musli(Binary, decode_only, name = "222Bd")] #[musli(Text, name = "222T")] #[musli(default, skip_encoding_if = zero)] pub f222: u8,
    #[musli(Binary, name = "223B")] #[musli(Binary, decode_only, name = "223Bd")] #[musli(Text, encode_only, name = "223Te")] #[musli(default, skip_encoding_if = zero)] pub f223: u8,
    #[musli(Binary, name = "224B")] #[musli(Binary, decode_only, name = "224Bd")] #[musli(Text, decode_only, name = "224Td")] #[musli(default, skip_encoding_if = zero)] pub f224: u8,
    #[musli(Binary, name = "225B")] #[musli(Binary, decode_only, name = "225Bd")] #[musli(mode = Custom, name = "225C")] #[musli(default, skip_encoding_if = zero)] pub f225: u8,
    #[musli(Binary, name = "226B")] #[musli(Binary, decode_only, name = "226Bd")] #[musli(mode = Custom, encode_only, name = "226Ce")] #[musli(default, skip_encoding_if = zero)] pub f226: u8,
    #[musli(Binary, name = "227B")] #[musli(Binary, decode_only, name = "227Bd")] #[musli(mode = Custom, decode_only, name = "227Cd")] #[musli(default, skip_encoding_if = zero)] pub f227: u8,
    #[musli(Binary, name = "228B")] #[musli(Text, name = "228T")] #[musli(Text, encode_only, name = "228Te")] #[musli(default, skip_encoding_if = zero)] pub f228: u8,
    #[musli(Binary, name = "229B")] #[musli(Text, name = "229T")] #[musli(Text, decode_only, name = "229Td")] #[musli(default, skip_encoding_if = zero)] pub f229: u8,
    #[musli(Binary, name = "230B")] #[musli(Text, name = "230T")] #[musli(mode = Custom, name = "230C")] #[musli(default, skip_encoding_if = zero)] pub f230: u8,
    #[musli(Binary, name = "231B")] #[musli(Text, name = "231T")] #[musli(mode = Custom, encode_only, name = "231Ce")] #[musli(default, skip_encoding_if = zero)] pub f231: u8,
    #[musli(Binary, name = "232B")] #[musli(Text, name = "232T")] #[musli(mode = Custom, decode_only, name = "232Cd")] #[musli(default, skip_encoding_if = zero)] pub f232: u8,
    #[musli(Binary, name = "233B")] #[musli(Text, encode_only, name = "233Te")] #[musli(Text, decode_only, name = "233Td")] #[musli(default, skip_encoding_if = zero)] pub f233: u8,
    #[musli(Binary, name = "234B")] #[musli(Text, encode_only, name = "234Te")] #[musli(mode = Custom, name = "234C")] #[musli(default, skip_encoding_if = zero)] pub f234: u8,
    #[musli(Binary, name = "235B")] #[musli(Text, encode_only, name = "235Te")] #[musli(mode = Custom, encode_only, name = "235Ce")] #[musli(default, skip_encoding_if = zero)] pub f235: u8,
    #[musli(Binary, name = "236B")] #[musli(Text, encode_only, name = "236Te")] #[musli(mode = Custom, decode_only, name = "236Cd")] #[musli(default, skip_encoding_if = zero)] pub f236: u8,
    #[musli(Binary, name = "237B")] #[musli(Text, decode_only, name = "237Td")] #[musli(mode = Custom, name = "237C")] #[musli(default, skip_encoding_if = zero)] pub f237: u8,
    #[musli(Binary, name = "238B")] #[musli(Text, decode_only, name = "238Td")] #[musli(mode = Custom, encode_only, name = "238Ce")] #[musli(default, skip_encoding_if = zero)] pub f238: u8,
    #[musli(Binary, name = "239B")] #[musli(Text, decode_only, name = "239Td")] #[musli(mode = Custom, decode_only, name = "239Cd")] #[musli(default, skip_encoding_if = zero)] pub f239: u8,
}
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub enum Unit3 {
    #[musli(decode_only, name = "180d")] #[musli(Binary, name = "180B")] #[musli(Binary, decode_only, name = "180Bd")] f180,
    #[musli(decode_only, name = "181d")] #[musli(Binary, name = "181B")] #[musli(Text, name = "181T")] f181,
    #[musli(decode_only, name = "182d")] #[musli(Binary, name = "182B")] #[musli(Text, encode_only, name = "182Te")] f182,
    #[musli(decode_only, name = "183d")] #[musli(Binary, name = "183B")] #[musli(Text, decode_only, name = "183Td")] f183,
    #[musli(decode_only, name = "184d")] #[musli(Binary, name = "184B")] #[musli(mode = Custom, name = "184C")] f184,
    #[musli(decode_only, name = "185d")] #[musli(Binary, name = "185B")] #[musli(mode = Custom, encode_only, name = "185Ce")] f185,
    #[musli(decode_only, name = "186d")] #[musli(Binary, name = "186B")] #[musli(mode = Custom, decode_only, name = "186Cd")] f186,
    #[musli(decode_only, name = "187d")] #[musli(Binary, encode_only, name = "187Be")] #[musli(Binary, decode_only, name = "187Bd")] f187,
    #[musli(decode_only, name = "188d")] #[musli(Binary, encode_only, name = "188Be")] #[musli(Text, name = "188T")] f188,
    #[musli(decode_only, name = "189d")] #[musli(Binary, encode_only, name = "189Be")] #[musli(Text, encode_only, name = "189Te")] f189,
    #[musli(decode_only, name = "190d")] #[musli(Binary, encode_only, name = "190Be")] #[musli(Text, decode_only, name = "190Td")] f190,
    #[musli(decode_only, name = "191d")] #[musli(Binary, encode_only, name = "191Be")] #[musli(mode = Custom, name = "191C")] f191,
    #[musli(decode_only, name = "192d")] #[musli(Binary, encode_only, name = "192Be")] #[musli(mode = Custom, encode_only, name = "192Ce")] f192,
    #[musli(decode_only, name = "193d")] #[musli(Binary, encode_only, name = "193Be")] #[musli(mode = Custom, decode_only, name = "193Cd")] f193,
    #[musli(decode_only, name = "194d")] #[musli(Binary, decode_only, name = "194Bd")] #[musli(Text, name = "194T")] f194,
    #[musli(decode_only, name = "195d")] #[musli(Binary, decode_only, name = "195Bd")] #[musli(Text, encode_only, name = "195Te")] f195,
    #[musli(decode_only, name = "196d")] #[musli(Binary, decode_only, name = "196Bd")] #[musli(Text, decode_only, name = "196Td")] f196,
    #[musli(decode_only, name = "197d")] #[musli(Binary, decode_only, name = "197Bd")] #[musli(mode = Custom, name = "197C")] f197,
    #[musli(decode_only, name = "198d")] #[musli(Binary, decode_only, name = "198Bd")] #[musli(mode = Custom, encode_only, name = "198Ce")] f198,
    #[musli(decode_only, name = "199d")] #[musli(Binary, decode_only, name = "199Bd")] #[musli(mode = Custom, decode_only, name = "199Cd")] f199,
    #[musli(decode_only, name = "200d")] #[musli(Text, name = "200T")] #[musli(Text, encode_only, name = "200Te")] f200,
    #[musli(decode_only, name = "201d")] #[musli(Text, name = "201T")] #[musli(Text, decode_only, name = "201Td")] f201,
    #[musli(decode_only, name = "202d")] #[musli(Text, name = "202T")] #[musli(mode = Custom, name = "202C")] f202,
    #[musli(decode_only, name = "203d")] #[musli(Text, name = "203T")] #[musli(mode = Custom, encode_only, name = "203Ce")] f203,
    #[musli(decode_only, name = "204d")] #[musli(Text, name = "204T")] #[musli(mode = Custom, decode_only, name = "204Cd")] f204,
    #[musli(decode_only, name = "205d")] #[musli(Text, encode_only, name = "205Te")] #[musli(Text, decode_only, name = "205Td")] f205,
    #[musli(decode_only, name = "206d")] #[musli(Text, encode_only, name = "206Te")] #[musli(mode = Custom, name = "206C")] f206,
    #[musli(decode_only, name = "207d")] #[musli(Text, encode_only, name = "207Te")] #[musli(mode = Custom, encode_only, name = "207Ce")] f207,
    #[musli(decode_only, name = "208d")] #[musli(Text, encode_only, name = "208Te")] #[musli(mode = Custom, decode_only, name = "208Cd")] f208,
    #[musli(decode_only, name = "209d")] #[musli(Text, decode_only, name = "209Td")] #[musli(mode = Custom, name = "209C")] f209,
    #[musli(decode_only, name = "210d")] #[musli(Text, decode_only, name = "210Td")] #[musli(mode = Custom, encode_only, name = "210Ce")] f210,
    #[musli(decode_only, name = "211d")] #[musli(Text, decode_only, name = "211Td")] #[musli(mode = Custom, decode_only, name = "211Cd")] f211,
    #[musli(decode_only, name = "212d")] #[musli(mode = Custom, name = "212C")] #[musli(mode = Custom, encode_only, name = "212Ce")] f212,
    #[musli(decode_only, name = "213d")] #[musli(mode = Custom, name = "213C")] #[musli(mode = Custom, decode_only, name = "213Cd")] f213,
    #[musli(decode_only, name = "214d")] #[musli(mode = Custom, encode_only, name = "214Ce")] #[musli(mode = Custom, decode_only, name = "214Cd")] f214,
    #[musli(Binary, name = "215B")] #[musli(Binary, encode_only, name = "215Be")] #[musli(Binary, decode_only, name = "215Bd")] f215,
    #[musli(Binary, name = "216B")] #[musli(Binary, encode_only, name = "216Be")] #[musli(Text, name = "216T")] f216,
    #[musli(Binary, name = "217B")] #[musli(Binary, encode_only, name = "217Be")] #[musli(Text, encode_only, name = "217Te")] f217,
    #[musli(Binary, name = "218B")] #[musli(Binary, encode_only, name = "218Be")] #[musli(Text, decode_only, name = "218Td")] f218,
    #[musli(Binary, name = "219B")] #[musli(Binary, encode_only, name = "219Be")] #[musli(mode = Custom, name = "219C")] f219,
    #[musli(Binary, name = "220B")] #[musli(Binary, encode_only, name = "220Be")] #[musli(mode = Custom, encode_only, name = "220Ce")] f220,
    #[musli(Binary, name = "221B")] #[musli(Binary, encode_only, name = "221Be")] #[musli(mode = Custom, decode_only, name = "221Cd")] f221,
    #[musli(Binary, name = "222B")] #[musli(Binary, decode_only, name = "222Bd")] #[musli(Text, name = "222T")] f222,
    #[musli(Binary, name = "223B")] #[musli(Binary, decode_only, name = "223Bd")] #[musli(Text, encode_only, name = "223Te")] f223,
    #[musli(Binary, name = "224B")] #[musli(Binary, decode_only, name = "224Bd")] #[musli(Text, decode_only, name = "224Td")] f224,
    #[musli(Binary, name = "225B")] #[musli(Binary, decode_only, name = "225Bd")] #[musli(mode = Custom, name = "225C")] f225,
    #[musli(Binary, name = "226B")] #[musli(Binary, decode_only, name = "226Bd")] #[musli(mode = Custom, encode_only, name = "226Ce")] f226,
    #[musli(Binary, name = "227B")] #[musli(Binary, decode_only, name = "227Bd")] #[musli(mode = Custom, decode_only, name = "227Cd")] f227,
    #[musli(Binary, name = "228B")] #[musli(Text, name = "228T")] #[musli(Text, encode_only, name = "228Te")] f228,
    #[musli(Binary, name = "229B")] #[musli(Text, name = "229T")] #[musli(Text, decode_only, name = "229Td")] f229,
    #[musli(Binary, name = "230B")] #[musli(Text, name = "230T")] #[musli(mode = Custom, name = "230C")] f230,
    #[musli(Binary, name = "231B")] #[musli(Text, name = "231T")] #[musli(mode = Custom, encode_only, name = "231Ce")] f231,
    #[musli(Binary, name = "232B")] #[musli(Text, name = "232T")] #[musli(mode = Custom, decode_only, name = "232Cd")] f232,
    #[musli(Binary, name = "233B")] #[musli(Text, encode_only, name = "233Te")] #[musli(Text, decode_only, name = "233Td")] f233,
    #[musli(Binary, name = "234B")] #[musli(Text, encode_only, name = "234Te")] #[musli(mode = Custom, name = "234C")] f234,
    #[musli(Binary, name = "235B")] #[musli(Text, encode_only, name = "235Te")] #[musli(mode = Custom, encode_only, name = "235Ce")] f235,
    #[musli(Binary, name = "236B")] #[musli(Text, encode_only, name = "236Te")] #[musli(mode = Custom, decode_only, name = "236Cd")] f236,
    #[musli(Binary, name = "237B")] #[musli(Text, decode_only, name = "237Td")] #[musli(mode = Custom, name = "237C")] f237,
    #[musli(Binary, name = "238B")] #[musli(Text, decode_only, name = "238Td")] #[musli(mode = Custom, encode_only, name = "238Ce")] f238,
    #[musli(Binary, name = "239B")] #[musli(Text, decode_only, name = "239Td")] #[musli(mode = Custom, decode_only, name = "239Cd")] f239,
}
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub enum Full3 {
    #[musli(decode_only, name = "180d")] #[musli(Binary, name = "180B")] #[musli(Binary, decode_only, name = "180Bd")] f180 { x: u8 },
    #[musli(decode_only, name = "181d")] #[musli(Binary, name = "181B")] #[musli(Text, name = "181T")] f181 { x: u8 },
    #[musli(decode_only, name = "182d")] #[musli(Binary, name = "182B")] #[musli(Text, encode_only, name = "182Te")] f182 { x: u8 },
    #[musli(decode_only, name = "183d")] #[musli(Binary, name = "183B")] #[musli(Text, decode_only, name = "183Td")] f183 { x: u8 },
    #[musli(decode_only, name = "184d")] #[musli(Binary, name = "184B")] #[musli(mode = Custom, name = "184C")] f184 { x: u8 },
    #[musli(decode_only, name = "185d")] #[musli(Binary, name = "185B")] #[musli(mode = Custom, encode_only, name = "185Ce")] f185 { x: u8 },
    #[musli(decode_only, name = "186d")] #[musli(Binary, name = "186B")] #[musli(mode = Custom, decode_only, name = "186Cd")] f186 { x: u8 },
    #[musli(decode_only, name = "187d")] #[musli(Binary, encode_only, name = "187Be")] #[musli(Binary, decode_only, name = "187Bd")] f187 { x: u8 },
    #[musli(decode_only, name = "188d")] #[musli(Binary, encode_only, name = "188Be")] #[musli(Text, name = "188T")] f188 { x: u8 },
    #[musli(decode_only, name = "189d")] #[musli(Binary, encode_only, name = "189Be")] #[musli(Text, encode_only, name = "189Te")] f189 { x: u8 },
    #[musli(decode_only, name = "190d")] #[musli(Binary, encode_only, name = "190Be")] #[musli(Text, decode_only, name = "190Td")] f190 { x: u8 },
    #[musli(decode_only, name = "191d")] #[musli(Binary, encode_only, name = "191Be")] #[musli(mode = Custom, name = "191C")] f191 { x: u8 },
    #[musli(decode_only, name = "192d")] #[musli(Binary, encode_only, name = "192Be")] #[musli(mode = Custom, encode_only, name = "192Ce")] f192 { x: u8 },
    #[musli(decode_only, name = "193d")] #[musli(Binary, encode_only, name = "193Be")] #[musli(mode = Custom, decode_only, name = "193Cd")] f193 { x: u8 },
    #[musli(decode_only, name = "194d")] #[musli(Binary, decode_only, name = "194Bd")] #[musli(Text, name = "194T")] f194 { x: u8 },
    #[musli(decode_only, name = "195d")] #[musli(Binary, decode_only, name = "195Bd")] #[musli(Text, encode_only, name = "195Te")] f195 { x: u8 },
    #[musli(decode_only, name = "196d")] #[musli(Binary, decode_only, name = "196Bd")] #[musli(Text, decode_only, name = "196Td")] f196 { x: u8 },
    #[musli(decode_only, name = "197d")] #[musli(Binary, decode_only, name = "197Bd")] #[musli(mode = Custom, name = "197C")] f197 { x: u8 },
    #[musli(decode_only, name = "198d")] #[musli(Binary, decode_only, name = "198Bd")] #[musli(mode = Custom, encode_only, name = "198Ce")] f198 { x: u8 },
    #[musli(decode_only, name = "199d")] #[musli(Binary, decode_only, name = "199Bd")] #[musli(mode = Custom, decode_only, name = "199Cd")] f199 { x: u8 },
    #[musli(decode_only, name = "200d")] #[musli(Text, name = "200T")] #[musli(Text, encode_only, name = "200Te")] f200 { x: u8 },
    #[musli(decode_only, name = "201d")] #[musli(Text, name = "201T")] #[musli(Text, decode_only, name = "201Td")] f201 { x: u8 },
    #[musli(decode_only, name = "202d")] #[musli(Text, name = "202T")] #[musli(mode = Custom, name = "202C")] f202 { x: u8 },
    #[musli(decode_only, name = "203d")] #[musli(Text, name = "203T")] #[musli(mode = Custom, encode_only, name = "203Ce")] f203 { x: u8 },
    #[musli(decode_only, name = "204d")] #[musli(Text, name = "204T")] #[musli(mode = Custom, decode_only, name = "204Cd")] f204 { x: u8 },
    #[musli(decode_only, name = "205d")] #[musli(Text, encode_only, name = "205Te")] #[musli(Text, decode_only, name = "205Td")] f205 { x: u8 },
    #[musli(decode_only, name = "206d")] #[musli(Text, encode_only, name = "206Te")] #[musli(mode = Custom, name = "206C")] f206 { x: u8 },
    #[musli(decode_only, name = "207d")] #[musli(Text, encode_only, name = "207Te")] #[musli(mode = Custom, encode_only, name = "207Ce")] f207 { x: u8 },
    #[musli(decode_only, name = "208d")] #[musli(Text, encode_only, name = "208Te")] #[musli(mode = Custom, decode_only, name = "208Cd")] f208 { x: u8 },
    #[musli(decode_only, name = "209d")] #[musli(Text, decode_only, name = "209Td")] #[musli(mode = Custom, name = "209C")] f209 { x: u8 },
    #[musli(decode_only, name = "210d")] #[musli(Text, decode_only, name = "210Td")] #[musli(mode = Custom, encode_only, name = "210Ce")] f210 { x: u8 },
    #[musli(decode_only, name = "211d")] #[musli(Text, decode_only, name = "211Td")] #[musli(mode = Custom, decode_only, name = "211Cd")] f211 { x: u8 },
    #[musli(decode_only, name = "212d")] #[musli(mode = Custom, name = "212C")] #[musli(mode = Custom, encode_only, name = "212Ce")] f212 { x: u8 },
    #[musli(decode_only, name = "213d")] #[musli(mode = Custom, name = "213C")] #[musli(mode = Custom, decode_only, name = "213Cd")] f213 { x: u8 },
    #[musli(decode_only, name = "214d")] #[musli(mode = Custom, encode_only, name = "214Ce")] #[musli(mode = Custom, decode_only, name = "214Cd")] f214 { x: u8 },
    #[musli(Binary, name = "215B")] #[musli(Binary, encode_only, name = "215Be")] #[musli(Binary, decode_only, name = "215Bd")] f215 { x: u8 },
    #[musli(Binary, name = "216B")] #[musli(Binary, encode_only, name = "216Be")] #[musli(Text, name = "216T")] f216 { x: u8 },
    #[musli(Binary, name = "217B")] #[musli(Binary, encode_only, name = "217Be")] #[musli(Text, encode_only, name = "217Te")] f217 { x: u8 },
    #[musli(Binary, name = "218B")] #[musli(Binary, encode_only, name = "218Be")] #[musli(Text, decode_only, name = "218Td")] f218 { x: u8 },
    #[musli(Binary, name = "219B")] #[musli(Binary, encode_only, name = "219Be")] #[musli(mode = Custom, name = "219C")] f219 { x: u8 },
    #[musli(Binary, name = "220B")] #[musli(Binary, encode_only, name = "220Be")] #[musli(mode = Custom, encode_only, name = "220Ce")] f220 { x: u8 },
    #[musli(Binary, name = "221B")] #[musli(Binary, encode_only, name = "221Be")] #[musli(mode = Custom, decode_only, name = "221Cd")] f221 { x: u8 },
    #[musli(Binary, name = "222B")] #[musli(Binary, decode_only, name = "222Bd")] #[musli(Text, name = "222T")] f222 { x: u8 },
    #[musli(Binary, name = "223B")] #[musli(Binary, decode_only, name = "223Bd")] #[musli(Text, encode_only, name = "223Te")] f223 { x: u8 },
    #[musli(Binary, name = "224B")] #[musli(Binary, decode_only, name = "224Bd")] #[musli(Text, decode_only, name = "224Td")] f224 { x: u8 },
    #[musli(Binary, name = "225B")] #[musli(Binary, decode_only, name = "225Bd")] #[musli(mode = Custom, name = "225C")] f225 { x: u8 },
    #[musli(Binary, name = "226B")] #[musli(Binary, decode_only, name = "226Bd")] #[musli(mode = Custom, encode_only, name = "226Ce")] f226 { x: u8 },
    #[musli(Binary, name = "227B")] #[musli(Binary, decode_only, name = "227Bd")] #[musli(mode = Custom, decode_only, name = "227Cd")] f227 { x: u8 },
    #[musli(Binary, name = "228B")] #[musli(Text, name = "228T")] #[musli(Text, encode_only, name = "228Te")] f228 { x: u8 },
    #[musli(Binary, name = "229B")] #[musli(Text, name = "229T")] #[musli(Text, decode_only, name = "229Td")] f229 { x: u8 },
    #[musli(Binary, name = "230B")] #[musli(Text, name = "230T")] #[musli(mode = Custom, name = "230C")] f230 { x: u8 },
    #[musli(Binary, name = "231B")] #[musli(Text, name = "231T")] #[musli(mode = Custom, encode_only, name = "231Ce")] f231 { x: u8 },
    #[musli(Binary, name = "232B")] #[musli(Text, name = "232T")] #[musli(mode = Custom, decode_only, name = "232Cd")] f232 { x: u8 },
    #[musli(Binary, name = "233B")] #[musli(Text, encode_only, name = "233Te")] #[musli(Text, decode_only, name = "233Td")] f233 { x: u8 },
    #[musli(Binary, name = "234B")] #[musli(Text, encode_only, name = "234Te")] #[musli(mode = Custom, name = "234C")] f234 { x: u8 },
    #[musli(Binary, name = "235B")] #[musli(Text, encode_only, name = "235Te")] #[musli(mode = Custom, encode_only, name = "235Ce")] f235 { x: u8 },
    #[musli(Binary, name = "236B")] #[musli(Text, encode_only, name = "236Te")] #[musli(mode = Custom, decode_only, name = "236Cd")] f236 { x: u8 },
    #[musli(Binary, name = "237B")] #[musli(Text, decode_only, name = "237Td")] #[musli(mode = Custom, name = "237C")] f237 { x: u8 },
    #[musli(Binary, name = "238B")] #[musli(Text, decode_only, name = "238Td")] #[musli(mode = Custom, encode_only, name = "238Ce")] f238 { x: u8 },
    #[musli(Binary, name = "239B")] #[musli(Text, decode_only, name = "239Td")] #[musli(mode = Custom, decode_only, name = "239Cd")] f239 { x: u8 },
}
impl Part for Fields3 {
    const NAME: &'static str = "field";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (180, Self { f180: 200, ..Self::default() }),
            (181, Self { f181: 200, ..Self::default() }),
            (182, Self { f182: 200, ..Self::default() }),
            (183, Self { f183: 200, ..Self::default() }),
            (184, Self { f184: 200, ..Self::default() }),
            (185, Self { f185: 200, ..Self::default() }),
            (186, Self { f186: 200, ..Self::default() }),
            (187, Self { f187: 200, ..Self::default() }),
            (188, Self { f188: 200, ..Self::default() }),
            (189, Self { f189: 200, ..Self::default() }),
            (190, Self { f190: 200, ..Self::default() }),
            (191, Self { f191: 200, ..Self::default() }),
            (192, Self { f192: 200, ..Self::default() }),
            (193, Self { f193: 200, ..Self::default() }),
            (194, Self { f194: 200, ..Self::default() }),
            (195, Self { f195: 200, ..Self::default() }),
            (196, Self { f196: 200, ..Self::default() }),
            (197, Self { f197: 200, ..Self::default() }),
            (198, Self { f198: 200, ..Self::default() }),
            (199, Self { f199: 200, ..Self::default() }),
            (200, Self { f200: 200, ..Self::default() }),
            (201, Self { f201: 200, ..Self::default() }),
            (202, Self { f202: 200, ..Self::default() }),
            (203, Self { f203: 200, ..Self::default() }),
            (204, Self { f204: 200, ..Self::default() }),
            (205, Self { f205: 200, ..Self::default() }),
            (206, Self { f206: 200, ..Self::default() }),
            (207, Self { f207: 200, ..Self::default() }),
            (208, Self { f208: 200, ..Self::default() }),
            (209, Self { f209: 200, ..Self::default() }),
            (210, Self { f210: 200, ..Self::default() }),
            (211, Self { f211: 200, ..Self::default() }),
            (212, Self { f212: 200, ..Self::default() }),
            (213, Self { f213: 200, ..Self::default() }),
            (214, Self { f214: 200, ..Self::default() }),
            (215, Self { f215: 200, ..Self::default() }),
            (216, Self { f216: 200, ..Self::default() }),
            (217, Self { f217: 200, ..Self::default() }),
            (218, Self { f218: 200, ..Self::default() }),
            (219, Self { f219: 200, ..Self::default() }),
            (220, Self { f220: 200, ..Self::default() }),
            (221, Self { f221: 200, ..Self::default() }),
            (222, Self { f222: 200, ..Self::default() }),
            (223, Self { f223: 200, ..Self::default() }),
            (224, Self { f224: 200, ..Self::default() }),
            (225, Self { f225: 200, ..Self::default() }),
            (226, Self { f226: 200, ..Self::default() }),
            (227, Self { f227: 200, ..Self::default() }),
            (228, Self { f228: 200, ..Self::default() }),
            (229, Self { f229: 200, ..Self::default() }),
            (230, Self { f230: 200, ..Self::default() }),
            (231, Self { f231: 200, ..Self::default() }),
            (232, Self { f232: 200, ..Self::default() }),
            (233, Self { f233: 200, ..Self::default() }),
            (234, Self { f234: 200, ..Self::default() }),
            (235, Self { f235: 200, ..Self::default() }),
            (236, Self { f236: 200, ..Self::default() }),
            (237, Self { f237: 200, ..Self::default() }),
            (238, Self { f238: 200, ..Self::default() }),
            (239, Self { f239: 200, ..Self::default() }),
        ]
    }
    fn with(name: &str, _: Den) -> Den {
        Den::Map(vec![(Den::str(name), Den::U8(200))])
    }
}
impl Part for Unit3 {
    const NAME: &'static str = "unit";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (180, Self::f180),
            (181, Self::f181),
            (182, Self::f182),
            (183, Self::f183),
            (184, Self::f184),
            (185, Self::f185),
            (186, Self::f186),
            (187, Self::f187),
            (188, Self::f188),
            (189, Self::f189),
            (190, Self::f190),
            (191, Self::f191),
            (192, Self::f192),
            (193, Self::f193),
            (194, Self::f194),
            (195, Self::f195),
            (196, Self::f196),
            (197, Self::f197),
            (198, Self::f198),
            (199, Self::f199),
            (200, Self::f200),
            (201, Self::f201),
            (202, Self::f202),
            (203, Self::f203),
            (204, Self::f204),
            (205, Self::f205),
            (206, Self::f206),
            (207, Self::f207),
            (208, Self::f208),
            (209, Self::f209),
            (210, Self::f210),
            (211, Self::f211),
            (212, Self::f212),
            (213, Self::f213),
            (214, Self::f214),
            (215, Self::f215),
            (216, Self::f216),
            (217, Self::f217),
            (218, Self::f218),
            (219, Self::f219),
            (220, Self::f220),
            (221, Self::f221),
            (222, Self::f222),
            (223, Self::f223),
            (224, Self::f224),
            (225, Self::f225),
            (226, Self::f226),
            (227, Self::f227),
            (228, Self::f228),
            (229, Self::f229),
            (230, Self::f230),
            (231, Self::f231),
            (232, Self::f232),
            (233, Self::f233),
            (234, Self::f234),
            (235, Self::f235),
            (236, Self::f236),
            (237, Self::f237),
            (238, Self::f238),
            (239, Self::f239),
        ]
    }
    fn with(name: &str, _: Den) -> Den {
        Den::str(name)
    }
}
impl Part for Full3 {
    const NAME: &'static str = "variant";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (180, Self::f180 { x: 201 }),
            (181, Self::f181 { x: 201 }),
            (182, Self::f182 { x: 201 }),
            (183, Self::f183 { x: 201 }),
            (184, Self::f184 { x: 201 }),
            (185, Self::f185 { x: 201 }),
            (186, Self::f186 { x: 201 }),
            (187, Self::f187 { x: 201 }),
            (188, Self::f188 { x: 201 }),
            (189, Self::f189 { x: 201 }),
            (190, Self::f190 { x: 201 }),
            (191, Self::f191 { x: 201 }),
            (192, Self::f192 { x: 201 }),
            (193, Self::f193 { x: 201 }),
            (194, Self::f194 { x: 201 }),
            (195, Self::f195 { x: 201 }),
            (196, Self::f196 { x: 201 }),
            (197, Self::f197 { x: 201 }),
            (198, Self::f198 { x: 201 }),
            (199, Self::f199 { x: 201 }),
            (200, Self::f200 { x: 201 }),
            (201, Self::f201 { x: 201 }),
            (202, Self::f202 { x: 201 }),
            (203, Self::f203 { x: 201 }),
            (204, Self::f204 { x: 201 }),
            (205, Self::f205 { x: 201 }),
            (206, Self::f206 { x: 201 }),
            (207, Self::f207 { x: 201 }),
            (208, Self::f208 { x: 201 }),
            (209, Self::f209 { x: 201 }),
            (210, Self::f210 { x: 201 }),
            (211, Self::f211 { x: 201 }),
            (212, Self::f212 { x: 201 }),
            (213, Self::f213 { x: 201 }),
            (214, Self::f214 { x: 201 }),
            (215, Self::f215 { x: 201 }),
            (216, Self::f216 { x: 201 }),
            (217, Self::f217 { x: 201 }),
            (218, Self::f218 { x: 201 }),
            (219, Self::f219 { x: 201 }),
            (220, Self::f220 { x: 201 }),
            (221, Self::f221 { x: 201 }),
            (222, Self::f222 { x: 201 }),
            (223, Self::f223 { x: 201 }),
            (224, Self::f224 { x: 201 }),
            (225, Self::f225 { x: 201 }),
            (226, Self::f226 { x: 201 }),
            (227, Self::f227 { x: 201 }),
            (228, Self::f228 { x: 201 }),
            (229, Self::f229 { x: 201 }),
            (230, Self::f230 { x: 201 }),
            (231, Self::f231 { x: 201 }),
            (232, Self::f232 { x: 201 }),
            (233, Self::f233 { x: 201 }),
            (234, Self::f234 { x: 201 }),
            (235, Self::f235 { x: 201 }),
            (236, Self::f236 { x: 201 }),
            (237, Self::f237 { x: 201 }),
            (238, Self::f238 { x: 201 }),
            (239, Self::f239 { x: 201 }),
        ]
    }
    fn with(name: &str, x: Den) -> Den {
        Den::var(Den::str(name), Den::Map(vec![(x, Den::U8(201))]))
    }
}
#[derive(Debug, Clone, PartialEq, Default, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub struct Fields4 {
    #[musli(Binary, name = "240B")] #[musli(mode = Custom, name = "240C")] #[musli(mode = Custom, encode_only, name = "240Ce")] #[musli(default, skip_encoding_if = zero)] pub f240: u8,
    #[musli(Binary, name = "241B")] #[musli(mode = Custom, name = "241C")] #[musli(mode = Custom, decode_only, name = "241Cd")] #[musli(default, skip_encoding_if = zero)] pub f241: u8,
    #[musli(Binary, name = "242B")] #[musli(mode = Custom, encode_only, name = "242Ce")] #[musli(mode = Custom, decode_only, name = "242Cd")] #[musli(default, skip_encoding_if = zero)] pub f242: u8,
    #[musli(Binary, encode_only, name = "243Be")] #[musli(Binary, decode_only, name = "243Bd")] #[musli(Text, name = "243T")] #[musli(default, skip_encoding_if = zero)] pub f243: u8,
    #[musli(Binary, encode_only, name = "244Be")] #[musli(Binary, decode_only, name = "244Bd")] #[musli(Text, encode_only, name = "244Te")] #[musli(default, skip_encoding_if = zero)] pub f244: u8,
    #[musli(Binary, encode_only, name = "245Be")] #[musli(Binary, decode_only, name = "245Bd")] #[musli(Text, decode_only, name = "245Td")] #[musli(default, skip_encoding_if = zero)] pub f245: u8,
    #[musli(Binary, encode_only, name = "246Be")] #[musli(Binary, decode_only, name = "246Bd")] #[musli(mode = Custom, name = "246C")] #[musli(default, skip_encoding_if = zero)] pub f246: u8,
    #[musli(Binary, encode_only, name = "247Be")] #[musli(Binary, decode_only, name = "247Bd")] #[musli(mode = Custom, encode_only, name = "247Ce")] #[musli(default, skip_encoding_if = zero)] pub f247: u8,
    #[musli(Binary, encode_only, name = "248Be")] #[musli(Binary, decode_only, name = "248Bd")] #[musli(mode = Custom, decode_only, name = "248Cd")] #[musli(default, skip_encoding_if = zero)] pub f248: u8,
    #[musli(Binary, encode_only, name = "249Be")] #[musli(Text, name = "249T")] #[musli(Text, encode_only, name = "249Te")] #[musli(default, skip_encoding_if = zero)] pub f249: u8,
    #[musli(Binary, encode_only, name = "250Be")] #[musli(Text, name = "250T")] #[musli(Text, decode_only, name = "250Td")] #[musli(default, skip_encoding_if = zero)] pub f250: u8,
    #[musli(Binary, encode_only, name = "251Be")] #[musli(Text, name = "251T")] #[musli(mode = Custom, name = "251C")] #[musli(default, skip_encoding_if = zero)] pub f251: u8,
    #[musli(Binary, encode_only, name = "252Be")] #[musli(Text, name = "252T")] #[musli(mode = Custom, encode_only, name = "252Ce")] #[musli(default, skip_encoding_if = zero)] pub f252: u8,
    #[musli(Binary, encode_only, name = "253Be")] #[musli(Text, name = "253T")] #[musli(mode = Custom, decode_only, name = "253Cd")] #[musli(default, skip_encoding_if = zero)] pub f253: u8,
    #[musli(Binary, encode_only, name = "254Be")] #[musli(Text, encode_only, name = "254Te")] #[musli(Text, decode_only, name = "254Td")] #[musli(default, skip_encoding_if = zero)] pub f254: u8,
    #[musli(Binary, encode_only, name = "255Be")] #[musli(Text, encode_only, name = "255Te")] #[musli(mode = Custom, name = "255C")] #[musli(default, skip_encoding_if = zero)] pub f255: u8,
    #[musli(Binary, encode_only, name = "256Be")] #[musli(Text, encode_only, name = "256Te")] #[musli(mode = Custom, encode_only, name = "256Ce")] #[musli(default, skip_encoding_if = zero)] pub f256: u8,
    #[musli(Binary, encode_only, name = "257Be")] #[musli(Text, encode_only, name = "257Te")] #[musli(mode = Custom, decode_only, name = "257Cd")] #[musli(default, skip_encoding_if = zero)] pub f257: u8,
    #[musli(Binary, encode_only, name = "258Be")] #[musli(Text, decode_only, name = "258Td")] #[musli(mode = Custom, name = "258C")] #[musli(default, skip_encoding_if = zero)] pub f258: u8,
    #[musli(Binary, encode_only, name = "259Be")] #[musli(Text, decode_only, name = "259Td")] #[musli(mode = Custom, encode_only, name = "259Ce")] #[musli(default, skip_encoding_if = zero)] pub f259: u8,
    #[musli(Binary, encode_only, name = "260Be")] #[musli(Text, decode_only, name = "260Td")] #[musli(mode = Custom, decode_only, name = "260Cd")] #[musli(default, skip_encoding_if = zero)] pub f260: u8,
    #[musli(Binary, encode_only, name = "261Be")] #[musli(mode = Custom, name = "261C")] #[musli(mode = Custom, encode_only, name = "261Ce")] #[musli(default, skip_encoding_if = zero)] pub f261: u8,
    #[musli(Binary, encode_only, name = "262Be")] #[musli(mode = Custom, name = "262C")] #[musli(mode = Custom, decode_only, name = "262Cd")] #[musli(default, skip_encoding_if = zero)] pub f262: u8,
    #[musli(Binary, encode_only, name = "263Be")] #[musli(mode = Custom, encode_only, name = "263Ce")] #[musli(mode = Custom, decode_only, name = "263Cd")] #[musli(default, skip_encoding_if = zero)] pub f263: u8,
    #[musli(Binary, decode_only, name = "264Bd")] #[musli(Text, name = "264T")] #[musli(Text, encode_only, name = "264Te")] #[musli(default, skip_encoding_if = zero)] pub f264: u8,
    #[musli(Binary, decode_only, name = "265Bd")] #[musli(Text, name = "265T")] #[musli(Text, decode_only, name = "265Td")] #[musli(default, skip_encoding_if = zero)] pub f265: u8,
    #[musli(Binary, decode_only, name = "266Bd")] #[musli(Text, name = "266T")] #[musli(mode = Custom, name = "266C")] #[musli(default, skip_encoding_if = zero)] pub f266: u8,
    #[musli(Binary, decode_only, name = "267Bd")] #[musli(Text, name = "267T")] #[musli(mode = Custom, encode_only, name = "267Ce")] #[musli(default, skip_encoding_if = zero)] pub f267: u8,
    #[musli(Binary, decode_only, name = "268Bd")] #[musli(Text, name = "268T")] #[musli(mode = Custom, decode_only, name = "268Cd")] #[musli(default, skip_encoding_if = zero)] pub f268: u8,
    #[musli(Binary, decode_only, name = "269Bd")] #[musli(Text, encode_only, name = "269Te")] #[musli(Text, decode_only, name = "269Td")] #[musli(default, skip_encoding_if = zero)] pub f269: u8,
    #[musli(Binary, decode_only, name = "270Bd")] #[musli(Text, encode_only, name = "270Te")] #[musli(mode = Custom, name = "270C")] #[musli(default, skip_encoding_if = zero)] pub f270: u8,
    #[musli(Binary, decode_only, name = "271Bd")] #[musli(Text, encode_only, name = "271Te")] #[musli(mode = Custom, encode_only, name = "271Ce")] #[musli(default, skip_encoding_if = zero)] pub f271: u8,
    #[musli(Binary, decode_only, name = "272Bd")] #[musli(Text, encode_only, name = "272Te")] #[musli(mode = Custom, decode_only, name = "272Cd")] #[musli(default, skip_encoding_if = zero)] pub f272: u8,
    #[musli(Binary, decode_only, name = "273Bd")] #[musli(Text, decode_only, name = "273Td")] #[musli(mode = Custom, name = "273C")] #[musli(default, skip_encoding_if = zero)] pub f273: u8,
    #[musli(Binary, decode_only, name = "274Bd")] #[musli(Text, decode_only, name = "274Td")] #[musli(mode = Custom, encode_only, name = "274Ce")] #[musli(default, skip_encoding_if = zero)] pub f274: u8,
    #[musli(Binary, decode_only, name = "275Bd")] #[musli(Text, decode_only, name = "275Td")] #[musli(mode = Custom, decode_only, name = "275Cd")] #[musli(default, skip_encoding_if = zero)] pub f275: u8,
    #[musli(Binary, decode_only, name = "276Bd")] #[musli(mode = Custom, name = "276C")] #[musli(mode = Custom, encode_only, name = "276Ce")] #[musli(default, skip_encoding_if = zero)] pub f276: u8,
    #[musli(Binary, decode_only, name = "277Bd")] #[musli(mode = Custom, name = "277C")] #[musli(mode = Custom, decode_only, name = "277Cd")] #[musli(default, skip_encoding_if = zero)] pub f277: u8,
    #[musli(Binary, decode_only, name = "278Bd")] #[musli(mode = Custom, encode_only, name = "278Ce")] #[musli(mode = Custom, decode_only, name = "278Cd")] #[musli(default, skip_encoding_if = zero)] pub f278: u8,
    #[musli(Text, name = "279T")] #[musli(Text, encode_only, name = "279Te")] #[musli(Text, decode_only, name = "279Td")] #[musli(default, skip_encoding_if = zero)] pub f279: u8,
    #[musli(Text, name = "280T")] #[musli(Text, encode_only, name = "280Te")] #[musli(mode = Custom, name = "280C")] #[musli(default, skip_encoding_if = zero)] pub f280: u8,
    #[musli(Text, name = "281T")] #[musli(Text, encode_only, name = "281Te")] #[musli(mode = Custom, encode_only, name = "281Ce")] #[musli(default, skip_encoding_if = zero)] pub f281: u8,
    #[musli(Text, name = "282T")] #[musli(Text, encode_only, name = "282Te")] #[musli(mode = Custom, decode_only, name = "282Cd")] #[musli(default, skip_encoding_if = zero)] pub f282: u8,
    #[musli(Text, name = "283T")] #[musli(Text, decode_only, name = "283Td")] #[musli(mode = Custom, name = "283C")] #[musli(default, skip_encoding_if = zero)] pub f283: u8,
    #[musli(Text, name = "284T")] #[musli(Text, decode_only, name = "284Td")] #[musli(mode = Custom, encode_only, name = "284Ce")] #[musli(default, skip_encoding_if = zero)] pub f284: u8,
    #[musli(Text, name = "285T")] #[musli(Text, decode_only, name = "285Td")] #[musli(mode = Custom, decode_only, name = "285Cd")] #[musli(default, skip_encoding_if = zero)] pub f285: u8,
    #[musli(Text, name = "286T")] #[musli(mode = Custom, name = "286C")] #[musli(mode = Custom, encode_only, name = "286Ce")] #[musli(default, skip_encoding_if = zero)] pub f286: u8,
    #[musli(Text, name = "287T")] #[musli(mode = Custom, name = "287C")] #[musli(mode = Custom, decode_only, name = "287Cd")] #[musli(default, skip_encoding_if = zero)] pub f287: u8,
    #[musli(Text, name = "288T")] #[musli(mode = Custom, encode_only, name = "288Ce")] #[musli(mode = Custom, decode_only, name = "288Cd")] #[musli(default, skip_encoding_if = zero)] pub f288: u8,
    #[musli(Text, encode_only, name = "289Te")] #[musli(Text, decode_only, name = "289Td")] #[musli(mode = Custom, name = "289C")] #[musli(default, skip_encoding_if = zero)] pub f289: u8,
    #[musli(Text, encode_only, name = "290Te")] #[musli(Text, decode_only, name = "290Td")] #[musli(mode = Custom, encode_only, name = "290Ce")] #[musli(default, skip_encoding_if = zero)] pub f290: u8,
    #[musli(Text, encode_only, name = "291Te")] #[musli(Text, decode_only, name = "291Td")] #[musli(mode = Custom, decode_only, name = "291Cd")] #[musli(default, skip_encoding_if = zero)] pub f291: u8,
    #[musli(Text, encode_only, name = "292Te")] #[musli(mode = Custom, name = "292C")] #[musli(mode = Custom, encode_only, name = "292Ce")] #[musli(default, skip_encoding_if = zero)] pub f292: u8,
    #[musli(Text, encode_only, name = "293Te")] #[musli(mode = Custom, name = "293C")] #[musli(mode = Custom, decode_only, name = "293Cd")] #[musli(default, skip_encoding_if = zero)] pub f293: u8,
    #[musli(Text, encode_only, name = "294Te")] #[musli(mode = Custom, encode_only, name = "294Ce")] #[musli(mode = Custom, decode_only, name = "294Cd")] #[musli(default, skip_encoding_if = zero)] pub f294: u8,
    #[musli(Text, decode_only, name = "295Td")] #[musli(mode = Custom, name = "295C")] #[musli(mode = Custom, encode_only, name = "295Ce")] #[musli(default, skip_encoding_if = zero)] pub f295: u8,
    #[musli(Text, decode_only, name = "296Td")] #[musli(mode = Custom, name = "296C")] #[musli(mode = Custom, decode_only, name = "296Cd")] #[musli(default, skip_encoding_if = zero)] pub f296: u8,
    #[musli(Text, decode_only, name = "297Td")] #[musli(mode = Custom, encode_only, name = "297Ce")] #[musli(mode = Custom, decode_only, name = "297Cd")] #[musli(default, skip_encoding_if = zero)] pub f297: u8,
    #[musli(mode = Custom, name = "298C")] #[musli(mode = Custom, encode_only, name = "298Ce")] #[musli(mode = Custom, decode_only, name = "298Cd")] #[musli(default, skip_encoding_if = zero)] pub f298: u8,
}
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub enum Unit4 {
    #[musli(Binary, name = "240B")] #[musli(mode = Custom, name = "240C")] #[musli(mode = Custom, encode_only, name = "240Ce")] f240,
    #[musli(Binary, name = "241B")] #[musli(mode = Custom, name = "241C")] #[musli(mode = Custom, decode_only, name = "241Cd")] f241,
    #[musli(Binary, name = "242B")] #[musli(mode = Custom, encode_only, name = "242Ce")] #[musli(mode = Custom, decode_only, name = "242Cd")] f242,
    #[musli(Binary, encode_only, name = "243Be")] #[musli(Binary, decode_only, name = "243Bd")] #[musli(Text, name = "243T")] f243,
    #[musli(Binary, encode_only, name = "244Be")] #[musli(Binary, decode_only, name = "244Bd")] #[musli(Text, encode_only, name = "244Te")] f244,
    #[musli(Binary, encode_only, name = "245Be")] #[musli(Binary, decode_only, name = "245Bd")] #[musli(Text, decode_only, name = "245Td")] f245,
    #[musli(Binary, encode_only, name = "246Be")] #[musli(Binary, decode_only, name = "246Bd")] #[musli(mode = Custom, name = "246C")] f246,
    #[musli(Binary, encode_only, name = "247Be")] #[musli(Binary, decode_only, name = "247Bd")] #[musli(mode = Custom, encode_only, name = "247Ce")] f247,
    #[musli(Binary, encode_only, name = "248Be")] #[musli(Binary, decode_only, name = "248Bd")] #[musli(mode = Custom, decode_only, name = "248Cd")] f248,
    #[musli(Binary, encode_only, name = "249Be")] #[musli(Text, name = "249T")] #[musli(Text, encode_only, name = "249Te")] f249,
    #[musli(Binary, encode_only, name = "250Be")] #[musli(Text, name = "250T")] #[musli(Text, decode_only, name = "250Td")] f250,
    #[musli(Binary, encode_only, name = "251Be")] #[musli(Text, name = "251T")] #[musli(mode = Custom, name = "251C")] f251,
    #[musli(Binary, encode_only, name = "252Be")] #[musli(Text, name = "252T")] #[musli(mode = Custom, encode_only, name = "252Ce")] f252,
    #[musli(Binary, encode_only, name = "253Be")] #[musli(Text, name = "253T")] #[musli(mode = Custom, decode_only, name = "253Cd")] f253,
    #[musli(Binary, encode_only, name = "254Be")] #[musli(Text, encode_only, name = "254Te")] #[musli(Text, decode_only, name = "254Td")] f254,
    #[musli(Binary, encode_only, name = "255Be")] #[musli(Text, encode_only, name = "255Te")] #[musli(mode = Custom, name = "255C")] f255,
    #[musli(Binary, encode_only, name = "256Be")] #[musli(Text, encode_only, name = "256Te")] #[musli(mode = Custom, encode_only, name = "256Ce")] f256,
    #[musli(Binary, encode_only, name = "257Be")] #[musli(Text, encode_only, name = "257Te")] #[musli(mode = Custom, decode_only, name = "257Cd")] f257,
    #[musli(Binary, encode_only, name = "258Be")] #[musli(Text, decode_only, name = "258Td")] #[musli(mode = Custom, name = "258C")] f258,
    #[musli(Binary, encode_only, name = "259Be")] #[musli(Text, decode_only, name = "259Td")] #[musli(mode = Custom, encode_only, name = "259Ce")] f259,
    #[musli(Binary, encode_only, name = "260Be")] #[musli(Text, decode_only, name = "260Td")] #[musli(mode = Custom, decode_only, name = "260Cd")] f260,
    #[musli(Binary, encode_only, name = "261Be")] #[musli(mode = Custom, name = "261C")] #[musli(mode = Custom, encode_only, name = "261Ce")] f261,
    #[musli(Binary, encode_only, name = "262Be")] #[musli(mode = Custom, name = "262C")] #[musli(mode = Custom, decode_only, name = "262Cd")] f262,
    #[musli(Binary, encode_only, name = "263Be")] #[musli(mode = Custom, encode_only, name = "263Ce")] #[musli(mode = Custom, decode_only, name = "263Cd")] f263,
    #[musli(Binary, decode_only, name = "264Bd")] #[musli(Text, name = "264T")] #[musli(Text, encode_only, name = "264Te")] f264,
    #[musli(Binary, decode_only, name = "265Bd")] #[musli(Text, name = "265T")] #[musli(Text, decode_only, name = "265Td")] f265,
    #[musli(Binary, decode_only, name = "266Bd")] #[musli(Text, name = "266T")] #[musli(mode = Custom, name = "266C")] f266,
    #[musli(Binary, decode_only, name = "267Bd")] #[musli(Text, name = "267T")] #[musli(mode = Custom, encode_only, name = "267Ce")] f267,
    #[musli(Binary, decode_only, name = "268Bd")] #[musli(Text, name = "268T")] #[musli(mode = Custom, decode_only, name = "268Cd")] f268,
    #[musli(Binary, decode_only, name = "269Bd")] #[musli(Text, encode_only, name = "269Te")] #[musli(Text, decode_only, name = "269Td")] f269,
    #[musli(Binary, decode_only, name = "270Bd")] #[musli(Text, encode_only, name = "270Te")] #[musli(mode = Custom, name = "270C")] f270,
    #[musli(Binary, decode_only, name = "271Bd")] #[musli(Text, encode_only, name = "271Te")] #[musli(mode = Custom, encode_only, name = "271Ce")] f271,
    #[musli(Binary, decode_only, name = "272Bd")] #[musli(Text, encode_only, name = "272Te")] #[musli(mode = Custom, decode_only, name = "272Cd")] f272,
    #[musli(Binary, decode_only, name = "273Bd")] #[musli(Text, decode_only, name = "273Td")] #[musli(mode = Custom, name = "273C")] f273,
    #[musli(Binary, decode_only, name = "274Bd")] #[musli(Text, decode_only, name = "274Td")] #[musli(mode = Custom, encode_only, name = "274Ce")] f274,
    #[musli(Binary, decode_only, name = "275Bd")] #[musli(Text, decode_only, name = "275Td")] #[musli(mode = Custom, decode_only, name = "275Cd")] f275,
    #[musli(Binary, decode_only, name = "276Bd")] #[musli(mode = Custom, name = "276C")] #[musli(mode = Custom, encode_only, name = "276Ce")] f276,
    #[musli(Binary, decode_only, name = "277Bd")] #[musli(mode = Custom, name = "277C")] #[musli(mode = Custom, decode_only, name = "277Cd")] f277,
    #[musli(Binary, decode_only, name = "278Bd")] #[musli(mode = Custom, encode_only, name = "278Ce")] #[musli(mode = Custom, decode_only, name = "278Cd")] f278,
    #[musli(Text, name = "279T")] #[musli(Text, encode_only, name = "279Te")] #[musli(Text, decode_only, name = "279Td")] f279,
    #[musli(Text, name = "280T")] #[musli(Text, encode_only, name = "280Te")] #[musli(mode = Custom, name = "280C")] f280,
    #[musli(Text, name = "281T")] #[musli(Text, encode_only, name = "281Te")] #[musli(mode = Custom, encode_only, name = "281Ce")] f281,
    #[musli(Text, name = "282T")] #[musli(Text, encode_only, name = "282Te")] #[musli(mode = Custom, decode_only, name = "282Cd")] f282,
    #[musli(Text, name = "283T")] #[musli(Text, decode_only, name = "283Td")] #[musli(mode = Custom, name = "283C")] f283,
    #[musli(Text, name = "284T")] #[musli(Text, decode_only, name = "284Td")] #[musli(mode = Custom, encode_only, name = "284Ce")] f284,
    #[musli(Text, name = "285T")] #[musli(Text, decode_only, name = "285Td")] #[musli(mode = Custom, decode_only, name = "285Cd")] f285,
    #[musli(Text, name = "286T")] #[musli(mode = Custom, name = "286C")] #[musli(mode = Custom, encode_only, name = "286Ce")] f286,
    #[musli(Text, name = "287T")] #[musli(mode = Custom, name = "287C")] #[musli(mode = Custom, decode_only, name = "287Cd")] f287,
    #[musli(Text, name = "288T")] #[musli(mode = Custom, encode_only, name = "288Ce")] #[musli(mode = Custom, decode_only, name = "288Cd")] f288,
    #[musli(Text, encode_only, name = "289Te")] #[musli(Text, decode_only, name = "289Td")] #[musli(mode = Custom, name = "289C")] f289,
    #[musli(Text, encode_only, name = "290Te")] #[musli(Text, decode_only, name = "290Td")] #[musli(mode = Custom, encode_only, name = "290Ce")] f290,
    #[musli(Text, encode_only, name = "291Te")] #[musli(Text, decode_only, name = "291Td")] #[musli(mode = Custom, decode_only, name = "291Cd")] f291,
    #[musli(Text, encode_only, name = "292Te")] #[musli(mode = Custom, name = "292C")] #[musli(mode = Custom, encode_only, name = "292Ce")] f292,
    #[musli(Text, encode_only, name = "293Te")] #[musli(mode = Custom, name = "293C")] #[musli(mode = Custom, decode_only, name = "293Cd")] f293,
    #[musli(Text, encode_only, name = "294Te")] #[musli(mode = Custom, encode_only, name = "294Ce")] #[musli(mode = Custom, decode_only, name = "294Cd")] f294,
    #[musli(Text, decode_only, name = "295Td")] #[musli(mode = Custom, name = "295C")] #[musli(mode = Custom, encode_only, name = "295Ce")] f295,
    #[musli(Text, decode_only, name = "296Td")] #[musli(mode = Custom, name = "296C")] #[musli(mode = Custom, decode_only, name = "296Cd")] f296,
    #[musli(Text, decode_only, name = "297Td")] #[musli(mode = Custom, encode_only, name = "297Ce")] #[musli(mode = Custom, decode_only, name = "297Cd")] f297,
    #[musli(mode = Custom, name = "298C")] #[musli(mode = Custom, encode_only, name = "298Ce")] #[musli(mode = Custom, decode_only, name = "298Cd")] f298,
}
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
#[musli(mode = Custom, name(type = str))]
pub enum Full4 {
    #[musli(Binary, name = "240B")] #[musli(mode = Custom, name = "240C")] #[musli(mode = Custom, encode_only, name = "240Ce")] f240 { x: u8 },
    #[musli(Binary, name = "241B")] #[musli(mode = Custom, name = "241C")] #[musli(mode = Custom, decode_only, name = "241Cd")] f241 { x: u8 },
    #[musli(Binary, name = "242B")] #[musli(mode = Custom, encode_only, name = "242Ce")] #[musli(mode = Custom, decode_only, name = "242Cd")] f242 { x: u8 },
    #[musli(Binary, encode_only, name = "243Be")] #[musli(Binary, decode_only, name = "243Bd")] #[musli(Text, name = "243T")] f243 { x: u8 },
    #[musli(Binary, encode_only, name = "244Be")] #[musli(Binary, decode_only, name = "244Bd")] #[musli(Text, encode_only, name = "244Te")] f244 { x: u8 },
    #[musli(Binary, encode_only, name = "245Be")] #[musli(Binary, decode_only, name = "245Bd")] #[musli(Text, decode_only, name = "245Td")] f245 { x: u8 },
    #[musli(Binary, encode_only, name = "246Be")] #[musli(Binary, decode_only, name = "246Bd")] #[musli(mode = Custom, name = "246C")] f246 { x: u8 },
    #[musli(Binary, encode_only, name = "247Be")] #[musli(Binary, decode_only, name = "247Bd")] #[musli(mode = Custom, encode_only, name = "247Ce")] f247 { x: u8 },
    #[musli(Binary, encode_only, name = "248Be")] #[musli(Binary, decode_only, name = "248Bd")] #[musli(mode = Custom, decode_only, name = "248Cd")] f248 { x: u8 },
    #[musli(Binary, encode_only, name = "249Be")] #[musli(Text, name = "249T")] #[musli(Text, encode_only, name = "249Te")] f249 { x: u8 },
    #[musli(Binary, encode_only, name = "250Be")] #[musli(Text, name = "250T")] #[musli(Text, decode_only, name = "250Td")] f250 { x: u8 },
    #[musli(Binary, encode_only, name = "251Be")] #[musli(Text, name = "251T")] #[musli(mode = Custom, name = "251C")] f251 { x: u8 },
    #[musli(Binary, encode_only, name = "252Be")] #[musli(Text, name = "252T")] #[musli(mode = Custom, encode_only, name = "252Ce")] f252 { x: u8 },
    #[musli(Binary, encode_only, name = "253Be")] #[musli(Text, name = "253T")] #[musli(mode = Custom, decode_only, name = "253Cd")] f253 { x: u8 },
    #[musli(Binary, encode_only, name = "254Be")] #[musli(Text, encode_only, name = "254Te")] #[musli(Text, decode_only, name = "254Td")] f254 { x: u8 },
    #[musli(Binary, encode_only, name = "255Be")] #[musli(Text, encode_only, name = "255Te")] #[musli(mode = Custom, name = "255C")] f255 { x: u8 },
    #[musli(Binary, encode_only, name = "256Be")] #[musli(Text, encode_only, name = "256Te")] #[musli(mode = Custom, encode_only, name = "256Ce")] f256 { x: u8 },
    #[musli(Binary, encode_only, name = "257Be")] #[musli(Text, encode_only, name = "257Te")] #[musli(mode = Custom, decode_only, name = "257Cd")] f257 { x: u8 },
    #[musli(Binary, encode_only, name = "258Be")] #[musli(Text, decode_only, name = "258Td")] #[musli(mode = Custom, name = "258C")] f258 { x: u8 },
    #[musli(Binary, encode_only, name = "259Be")] #[musli(Text, decode_only, name = "259Td")] #[musli(mode = Custom, encode_only, name = "259Ce")] f259 { x: u8 },
    #[musli(Binary, encode_only, name = "260Be")] #[musli(Text, decode_only, name = "260Td")] #[musli(mode = Custom, decode_only, name = "260Cd")] f260 { x: u8 },
    #[musli(Binary, encode_only, name = "261Be")] #[musli(mode = Custom, name = "261C")] #[musli(mode = Custom, encode_only, name = "261Ce")] f261 { x: u8 },
    #[musli(Binary, encode_only, name = "262Be")] #[musli(mode = Custom, name = "262C")] #[musli(mode = Custom, decode_only, name = "262Cd")] f262 { x: u8 },
    #[musli(Binary, encode_only, name = "263Be")] #[musli(mode = Custom, encode_only, name = "263Ce")] #[musli(mode = Custom, decode_only, name = "263Cd")] f263 { x: u8 },
    #[musli(Binary, decode_only, name = "264Bd")] #[musli(Text, name = "264T")] #[musli(Text, encode_only, name = "264Te")] f264 { x: u8 },
    #[musli(Binary, decode_only, name = "265Bd")] #[musli(Text, name = "265T")] #[musli(Text, decode_only, name = "265Td")] f265 { x: u8 },
    #[musli(Binary, decode_only, name = "266Bd")] #[musli(Text, name = "266T")] #[musli(mode = Custom, name = "266C")] f266 { x: u8 },
    #[musli(Binary, decode_only, name = "267Bd")] #[musli(Text, name = "267T")] #[musli(mode = Custom, encode_only, name = "267Ce")] f267 { x: u8 },
    #[musli(Binary, decode_only, name = "268Bd")] #[musli(Text, name = "268T")] #[musli(mode = Custom, decode_only, name = "268Cd")] f268 { x: u8 },
    #[musli(Binary, decode_only, name = "269Bd")] #[musli(Text, encode_only, name = "269Te")] #[musli(Text, decode_only, name = "269Td")] f269 { x: u8 },
    #[musli(Binary, decode_only, name = "270Bd")] #[musli(Text, encode_only, name = "270Te")] #[musli(mode = Custom, name = "270C")] f270 { x: u8 },
    #[musli(Binary, decode_only, name = "271Bd")] #[musli(Text, encode_only, name = "271Te")] #[musli(mode = Custom, encode_only, name = "271Ce")] f271 { x: u8 },
    #[musli(Binary, decode_only, name = "272Bd")] #[musli(Text, encode_only, name = "272Te")] #[musli(mode = Custom, decode_only, name = "272Cd")] f272 { x: u8 },
    #[musli(Binary, decode_only, name = "273Bd")] #[musli(Text, decode_only, name = "273Td")] #[musli(mode = Custom, name = "273C")] f273 { x: u8 },
    #[musli(Binary, decode_only, name = "274Bd")] #[musli(Text, decode_only, name = "274Td")] #[musli(mode = Custom, encode_only, name = "274Ce")] f274 { x: u8 },
    #[musli(Binary, decode_only, name = "275Bd")] #[musli(Text, decode_only, name = "275Td")] #[musli(mode = Custom, decode_only, name = "275Cd")] f275 { x: u8 },
    #[musli(Binary, decode_only, name = "276Bd")] #[musli(mode = Custom, name = "276C")] #[musli(mode = Custom, encode_only, name = "276Ce")] f276 { x: u8 },
    #[musli(Binary, decode_only, name = "277Bd")] #[musli(mode = Custom, name = "277C")] #[musli(mode = Custom, decode_only, name = "277Cd")] f277 { x: u8 },
    #[musli(Binary, decode_only, name = "278Bd")] #[musli(mode = Custom, encode_only, name = "278Ce")] #[musli(mode = Custom, decode_only, name = "278Cd")] f278 { x: u8 },
    #[musli(Text, name = "279T")] #[musli(Text, encode_only, name = "279Te")] #[musli(Text, decode_only, name = "279Td")] f279 { x: u8 },
    #[musli(Text, name = "280T")] #[musli(Text, encode_only, name = "280Te")] #[musli(mode = Custom, name = "280C")] f280 { x: u8 },
    #[musli(Text, name = "281T")] #[musli(Text, encode_only, name = "281Te")] #[musli(mode = Custom, encode_only, name = "281Ce")] f281 { x: u8 },
    #[musli(Text, name = "282T")] #[musli(Text, encode_only, name = "282Te")] #[musli(mode = Custom, decode_only, name = "282Cd")] f282 { x: u8 },
    #[musli(Text, name = "283T")] #[musli(Text, decode_only, name = "283Td")] #[musli(mode = Custom, name = "283C")] f283 { x: u8 },
    #[musli(Text, name = "284T")] #[musli(Text, decode_only, name = "284Td")] #[musli(mode = Custom, encode_only, name = "284Ce")] f284 { x: u8 },
    #[musli(Text, name = "285T")] #[musli(Text, decode_only, name = "285Td")] #[musli(mode = Custom, decode_only, name = "285Cd")] f285 { x: u8 },
    #[musli(Text, name = "286T")] #[musli(mode = Custom, name = "286C")] #[musli(mode = Custom, encode_only, name = "286Ce")] f286 { x: u8 },
    #[musli(Text, name = "287T")] #[musli(mode = Custom, name = "287C")] #[musli(mode = Custom, decode_only, name = "287Cd")] f287 { x: u8 },
    #[musli(Text, name = "288T")] #[musli(mode = Custom, encode_only, name = "288Ce")] #[musli(mode = Custom, decode_only, name = "288Cd")] f288 { x: u8 },
    #[musli(Text, encode_only, name = "289Te")] #[musli(Text, decode_only, name = "289Td")] #[musli(mode = Custom, name = "289C")] f289 { x: u8 },
    #[musli(Text, encode_only, name = "290Te")] #[musli(Text, decode_only, name = "290Td")] #[musli(mode = Custom, encode_only, name = "290Ce")] f290 { x: u8 },
    #[musli(Text, encode_only, name = "291Te")] #[musli(Text, decode_only, name = "291Td")] #[musli(mode = Custom, decode_only, name = "291Cd")] f291 { x: u8 },
    #[musli(Text, encode_only, name = "292Te")] #[musli(mode = Custom, name = "292C")] #[musli(mode = Custom, encode_only, name = "292Ce")] f292 { x: u8 },
    #[musli(Text, encode_only, name = "293Te")] #[musli(mode = Custom, name = "293C")] #[musli(mode = Custom, decode_only, name = "293Cd")] f293 { x: u8 },
    #[musli(Text, encode_only, name = "294Te")] #[musli(mode = Custom, encode_only, name = "294Ce")] #[musli(mode = Custom, decode_only, name = "294Cd")] f294 { x: u8 },
    #[musli(Text, decode_only, name = "295Td")] #[musli(mode = Custom, name = "295C")] #[musli(mode = Custom, encode_only, name = "295Ce")] f295 { x: u8 },
    #[musli(Text, decode_only, name = "296Td")] #[musli(mode = Custom, name = "296C")] #[musli(mode = Custom, decode_only, name = "296Cd")] f296 { x: u8 },
    #[musli(Text, decode_only, name = "297Td")] #[musli(mode = Custom, encode_only, name = "297Ce")] #[musli(mode = Custom, decode_only, name = "297Cd")] f297 { x: u8 },
    #[musli(mode = Custom, name = "298C")] #[musli(mode = Custom, encode_only, name = "298Ce")] #[musli(mode = Custom, decode_only, name = "298Cd")] f298 { x: u8 },
}
impl Part for Fields4 {
    const NAME: &'static str = "field";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (240, Self { f240: 200, ..Self::default() }),
            (241, Self { f241: 200, ..Self::default() }),
            (242, Self { f242: 200, ..Self::default() }),
            (243, Self { f243: 200, ..Self::default() }),
            (244, Self { f244: 200, ..Self::default() }),
            (245, Self { f245: 200, ..Self::default() }),
            (246, Self { f246: 200, ..Self::default() }),
            (247, Self { f247: 200, ..Self::default() }),
            (248, Self { f248: 200, ..Self::default() }),
            (249, Self { f249: 200, ..Self::default() }),
            (250, Self { f250: 200, ..Self::default() }),
            (251, Self { f251: 200, ..Self::default() }),
            (252, Self { f252: 200, ..Self::default() }),
            (253, Self { f253: 200, ..Self::default() }),
            (254, Self { f254: 200, ..Self::default() }),
            (255, Self { f255: 200, ..Self::default() }),
            (256, Self { f256: 200, ..Self::default() }),
            (257, Self { f257: 200, ..Self::default() }),
            (258, Self { f258: 200, ..Self::default() }),
            (259, Self { f259: 200, ..Self::default() }),
            (260, Self { f260: 200, ..Self::default() }),
            (261, Self { f261: 200, ..Self::default() }),
            (262, Self { f262: 200, ..Self::default() }),
            (263, Self { f263: 200, ..Self::default() }),
            (264, Self { f264: 200, ..Self::default() }),
            (265, Self { f265: 200, ..Self::default() }),
            (266, Self { f266: 200, ..Self::default() }),
            (267, Self { f267: 200, ..Self::default() }),
            (268, Self { f268: 200, ..Self::default() }),
            (269, Self { f269: 200, ..Self::default() }),
            (270, Self { f270: 200, ..Self::default() }),
            (271, Self { f271: 200, ..Self::default() }),
            (272, Self { f272: 200, ..Self::default() }),
            (273, Self { f273: 200, ..Self::default() }),
            (274, Self { f274: 200, ..Self::default() }),
            (275, Self { f275: 200, ..Self::default() }),
            (276, Self { f276: 200, ..Self::default() }),
            (277, Self { f277: 200, ..Self::default() }),
            (278, Self { f278: 200, ..Self::default() }),
            (279, Self { f279: 200, ..Self::default() }),
            (280, Self { f280: 200, ..Self::default() }),
            (281, Self { f281: 200, ..Self::default() }),
            (282, Self { f282: 200, ..Self::default() }),
            (283, Self { f283: 200, ..Self::default() }),
            (284, Self { f284: 200, ..Self::default() }),
            (285, Self { f285: 200, ..Self::default() }),
            (286, Self { f286: 200, ..Self::default() }),
            (287, Self { f287: 200, ..Self::default() }),
            (288, Self { f288: 200, ..Self::default() }),
            (289, Self { f289: 200, ..Self::default() }),
            (290, Self { f290: 200, ..Self::default() }),
            (291, Self { f291: 200, ..Self::default() }),
            (292, Self { f292: 200, ..Self::default() }),
            (293, Self { f293: 200, ..Self::default() }),
            (294, Self { f294: 200, ..Self::default() }),
            (295, Self { f295: 200, ..Self::default() }),
            (296, Self { f296: 200, ..Self::default() }),
            (297, Self { f297: 200, ..Self::default() }),
            (298, Self { f298: 200, ..Self::default() }),
        ]
    }
    fn with(name: &str, _: Den) -> Den {
        Den::Map(vec![(Den::str(name), Den::U8(200))])
    }
}
impl Part for Unit4 {
    const NAME: &'static str = "unit";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (240, Self::f240),
            (241, Self::f241),
            (242, Self::f242),
            (243, Self::f243),
            (244, Self::f244),
            (245, Self::f245),
            (246, Self::f246),
            (247, Self::f247),
            (248, Self::f248),
            (249, Self::f249),
            (250, Self::f250),
            (251, Self::f251),
            (252, Self::f252),
            (253, Self::f253),
            (254, Self::f254),
            (255, Self::f255),
            (256, Self::f256),
            (257, Self::f257),
            (258, Self::f258),
            (259, Self::f259),
            (260, Self::f260),
            (261, Self::f261),
            (262, Self::f262),
            (263, Self::f263),
            (264, Self::f264),
            (265, Self::f265),
            (266, Self::f266),
            (267, Self::f267),
            (268, Self::f268),
            (269, Self::f269),
            (270, Self::f270),
            (271, Self::f271),
            (272, Self::f272),
            (273, Self::f273),
            (274, Self::f274),
            (275, Self::f275),
            (276, Self::f276),
            (277, Self::f277),
            (278, Self::f278),
            (279, Self::f279),
            (280, Self::f280),
            (281, Self::f281),
            (282, Self::f282),
            (283, Self::f283),
            (284, Self::f284),
            (285, Self::f285),
            (286, Self::f286),
            (287, Self::f287),
            (288, Self::f288),
            (289, Self::f289),
            (290, Self::f290),
            (291, Self::f291),
            (292, Self::f292),
            (293, Self::f293),
            (294, Self::f294),
            (295, Self::f295),
            (296, Self::f296),
            (297, Self::f297),
            (298, Self::f298),
        ]
    }
    fn with(name: &str, _: Den) -> Den {
        Den::str(name)
    }
}
impl Part for Full4 {
    const NAME: &'static str = "variant";
    fn all() -> Vec<(usize, Self)> {
        vec![
            (240, Self::f240 { x: 201 }),
            (241, Self::f241 { x: 201 }),
            (242, Self::f242 { x: 201 }),
            (243, Self::f243 { x: 201 }),
            (244, Self::f244 { x: 201 }),
            (245, Self::f245 { x: 201 }),
            (246, Self::f246 { x: 201 }),
            (247, Self::f247 { x: 201 }),
            (248, Self::f248 { x: 201 }),
            (249, Self::f249 { x: 201 }),
            (250, Self::f250 { x: 201 }),
            (251, Self::f251 { x: 201 }),
            (252, Self::f252 { x: 201 }),
            (253, Self::f253 { x: 201 }),
            (254, Self::f254 { x: 201 }),
            (255, Self::f255 { x: 201 }),
            (256, Self::f256 { x: 201 }),
            (257, Self::f257 { x: 201 }),
            (258, Self::f258 { x: 201 }),
            (259, Self::f259 { x: 201 }),
            (260, Self::f260 { x: 201 }),
            (261, Self::f261 { x: 201 }),
            (262, Self::f262 { x: 201 }),
            (263, Self::f263 { x: 201 }),
            (264, Self::f264 { x: 201 }),
            (265, Self::f265 { x: 201 }),
            (266, Self::f266 { x: 201 }),
            (267, Self::f267 { x: 201 }),
            (268, Self::f268 { x: 201 }),
            (269, Self::f269 { x: 201 }),
            (270, Self::f270 { x: 201 }),
            (271, Self::f271 { x: 201 }),
            (272, Self::f272 { x: 201 }),
            (273, Self::f273 { x: 201 }),
            (274, Self::f274 { x: 201 }),
            (275, Self::f275 { x: 201 }),
            (276, Self::f276 { x: 201 }),
            (277, Self::f277 { x: 201 }),
            (278, Self::f278 { x: 201 }),
            (279, Self::f279 { x: 201 }),
            (280, Self::f280 { x: 201 }),
            (281, Self::f281 { x: 201 }),
            (282, Self::f282 { x: 201 }),
            (283, Self::f283 { x: 201 }),
            (284, Self::f284 { x: 201 }),
            (285, Self::f285 { x: 201 }),
            (286, Self::f286 { x: 201 }),
            (287, Self::f287 { x: 201 }),
            (288, Self::f288 { x: 201 }),
            (289, Self::f289 { x: 201 }),
            (290, Self::f290 { x: 201 }),
            (291, Self::f291 { x: 201 }),
            (292, Self::f292 { x: 201 }),
            (293, Self::f293 { x: 201 }),
            (294, Self::f294 { x: 201 }),
            (295, Self::f295 { x: 201 }),
            (296, Self::f296 { x: 201 }),
            (297, Self::f297 { x: 201 }),
            (298, Self::f298 { x: 201 }),
        ]
    }
    fn with(name: &str, x: Den) -> Den {
        Den::var(Den::str(name), Den::Map(vec![(x, Den::U8(201))]))
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(name_all = "PascalCase")]
pub struct All0 { first_field: u8 }
impl Whole for All0 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(encode_only, name_all = "PascalCase")]
pub struct All1 { first_field: u8 }
impl Whole for All1 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "e", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(decode_only, name_all = "PascalCase")]
pub struct All2 { first_field: u8 }
impl Whole for All2 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "d", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, name_all = "PascalCase")]
pub struct All3 { first_field: u8 }
impl Whole for All3 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, encode_only, name_all = "PascalCase")]
pub struct All4 { first_field: u8 }
impl Whole for All4 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "e", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, decode_only, name_all = "PascalCase")]
pub struct All5 { first_field: u8 }
impl Whole for All5 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "d", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Text, name_all = "PascalCase")]
pub struct All6 { first_field: u8 }
impl Whole for All6 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Text, encode_only, name_all = "PascalCase")]
pub struct All7 { first_field: u8 }
impl Whole for All7 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "e", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Text, decode_only, name_all = "PascalCase")]
pub struct All8 { first_field: u8 }
impl Whole for All8 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "d", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, name_all = "PascalCase")]
pub struct All9 { first_field: u8 }
impl Whole for All9 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("C", "", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, name_all = "PascalCase")]
pub struct All10 { first_field: u8 }
impl Whole for All10 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("C", "e", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, decode_only, name_all = "PascalCase")]
pub struct All11 { first_field: u8 }
impl Whole for All11 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("C", "d", "PascalCase")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(name_all = "PascalCase")] #[musli(encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All12 { first_field: u8 }
impl Whole for All12 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase"), ("", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(name_all = "PascalCase")] #[musli(decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All13 { first_field: u8 }
impl Whole for All13 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase"), ("", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(name_all = "PascalCase")] #[musli(Binary, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All14 { first_field: u8 }
impl Whole for All14 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase"), ("B", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(name_all = "PascalCase")] #[musli(Binary, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All15 { first_field: u8 }
impl Whole for All15 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase"), ("B", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(name_all = "PascalCase")] #[musli(Binary, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All16 { first_field: u8 }
impl Whole for All16 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase"), ("B", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(name_all = "PascalCase")] #[musli(Text, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All17 { first_field: u8 }
impl Whole for All17 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase"), ("T", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(name_all = "PascalCase")] #[musli(Text, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All18 { first_field: u8 }
impl Whole for All18 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase"), ("T", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(name_all = "PascalCase")] #[musli(Text, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All19 { first_field: u8 }
impl Whole for All19 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase"), ("T", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "PascalCase")] #[musli(mode = Custom, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All20 { first_field: u8 }
impl Whole for All20 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase"), ("C", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "PascalCase")] #[musli(mode = Custom, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All21 { first_field: u8 }
impl Whole for All21 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase"), ("C", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "PascalCase")] #[musli(mode = Custom, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All22 { first_field: u8 }
impl Whole for All22 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "", "PascalCase"), ("C", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(encode_only, name_all = "PascalCase")] #[musli(decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All23 { first_field: u8 }
impl Whole for All23 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "e", "PascalCase"), ("", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(encode_only, name_all = "PascalCase")] #[musli(Binary, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All24 { first_field: u8 }
impl Whole for All24 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "e", "PascalCase"), ("B", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(encode_only, name_all = "PascalCase")] #[musli(Binary, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All25 { first_field: u8 }
impl Whole for All25 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "e", "PascalCase"), ("B", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(encode_only, name_all = "PascalCase")] #[musli(Binary, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All26 { first_field: u8 }
impl Whole for All26 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "e", "PascalCase"), ("B", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(encode_only, name_all = "PascalCase")] #[musli(Text, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All27 { first_field: u8 }
impl Whole for All27 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "e", "PascalCase"), ("T", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(encode_only, name_all = "PascalCase")] #[musli(Text, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All28 { first_field: u8 }
impl Whole for All28 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "e", "PascalCase"), ("T", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(encode_only, name_all = "PascalCase")] #[musli(Text, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All29 { first_field: u8 }
impl Whole for All29 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "e", "PascalCase"), ("T", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(encode_only, name_all = "PascalCase")] #[musli(mode = Custom, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All30 { first_field: u8 }
impl Whole for All30 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "e", "PascalCase"), ("C", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(encode_only, name_all = "PascalCase")] #[musli(mode = Custom, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All31 { first_field: u8 }
impl Whole for All31 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "e", "PascalCase"), ("C", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(encode_only, name_all = "PascalCase")] #[musli(mode = Custom, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All32 { first_field: u8 }
impl Whole for All32 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "e", "PascalCase"), ("C", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(decode_only, name_all = "PascalCase")] #[musli(Binary, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All33 { first_field: u8 }
impl Whole for All33 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "d", "PascalCase"), ("B", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(decode_only, name_all = "PascalCase")] #[musli(Binary, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All34 { first_field: u8 }
impl Whole for All34 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "d", "PascalCase"), ("B", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(decode_only, name_all = "PascalCase")] #[musli(Binary, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All35 { first_field: u8 }
impl Whole for All35 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "d", "PascalCase"), ("B", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(decode_only, name_all = "PascalCase")] #[musli(Text, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All36 { first_field: u8 }
impl Whole for All36 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "d", "PascalCase"), ("T", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(decode_only, name_all = "PascalCase")] #[musli(Text, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All37 { first_field: u8 }
impl Whole for All37 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "d", "PascalCase"), ("T", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(decode_only, name_all = "PascalCase")] #[musli(Text, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All38 { first_field: u8 }
impl Whole for All38 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "d", "PascalCase"), ("T", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(decode_only, name_all = "PascalCase")] #[musli(mode = Custom, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All39 { first_field: u8 }
impl Whole for All39 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "d", "PascalCase"), ("C", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(decode_only, name_all = "PascalCase")] #[musli(mode = Custom, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All40 { first_field: u8 }
impl Whole for All40 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "d", "PascalCase"), ("C", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(decode_only, name_all = "PascalCase")] #[musli(mode = Custom, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All41 { first_field: u8 }
impl Whole for All41 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("", "d", "PascalCase"), ("C", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, name_all = "PascalCase")] #[musli(Binary, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All42 { first_field: u8 }
impl Whole for All42 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "", "PascalCase"), ("B", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, name_all = "PascalCase")] #[musli(Binary, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All43 { first_field: u8 }
impl Whole for All43 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "", "PascalCase"), ("B", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, name_all = "PascalCase")] #[musli(Text, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All44 { first_field: u8 }
impl Whole for All44 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "", "PascalCase"), ("T", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, name_all = "PascalCase")] #[musli(Text, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All45 { first_field: u8 }
impl Whole for All45 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "", "PascalCase"), ("T", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, name_all = "PascalCase")] #[musli(Text, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All46 { first_field: u8 }
impl Whole for All46 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "", "PascalCase"), ("T", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Binary, name_all = "PascalCase")] #[musli(mode = Custom, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All47 { first_field: u8 }
impl Whole for All47 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "", "PascalCase"), ("C", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Binary, name_all = "PascalCase")] #[musli(mode = Custom, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All48 { first_field: u8 }
impl Whole for All48 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "", "PascalCase"), ("C", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Binary, name_all = "PascalCase")] #[musli(mode = Custom, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All49 { first_field: u8 }
impl Whole for All49 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "", "PascalCase"), ("C", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, encode_only, name_all = "PascalCase")] #[musli(Binary, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All50 { first_field: u8 }
impl Whole for All50 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "e", "PascalCase"), ("B", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, encode_only, name_all = "PascalCase")] #[musli(Text, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All51 { first_field: u8 }
impl Whole for All51 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "e", "PascalCase"), ("T", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, encode_only, name_all = "PascalCase")] #[musli(Text, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All52 { first_field: u8 }
impl Whole for All52 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "e", "PascalCase"), ("T", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, encode_only, name_all = "PascalCase")] #[musli(Text, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All53 { first_field: u8 }
impl Whole for All53 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "e", "PascalCase"), ("T", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Binary, encode_only, name_all = "PascalCase")] #[musli(mode = Custom, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All54 { first_field: u8 }
impl Whole for All54 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "e", "PascalCase"), ("C", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Binary, encode_only, name_all = "PascalCase")] #[musli(mode = Custom, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All55 { first_field: u8 }
impl Whole for All55 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "e", "PascalCase"), ("C", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Binary, encode_only, name_all = "PascalCase")] #[musli(mode = Custom, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All56 { first_field: u8 }
impl Whole for All56 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "e", "PascalCase"), ("C", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, decode_only, name_all = "PascalCase")] #[musli(Text, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All57 { first_field: u8 }
impl Whole for All57 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "d", "PascalCase"), ("T", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, decode_only, name_all = "PascalCase")] #[musli(Text, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All58 { first_field: u8 }
impl Whole for All58 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "d", "PascalCase"), ("T", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Binary, decode_only, name_all = "PascalCase")] #[musli(Text, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All59 { first_field: u8 }
impl Whole for All59 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "d", "PascalCase"), ("T", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Binary, decode_only, name_all = "PascalCase")] #[musli(mode = Custom, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All60 { first_field: u8 }
impl Whole for All60 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "d", "PascalCase"), ("C", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Binary, decode_only, name_all = "PascalCase")] #[musli(mode = Custom, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All61 { first_field: u8 }
impl Whole for All61 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "d", "PascalCase"), ("C", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Binary, decode_only, name_all = "PascalCase")] #[musli(mode = Custom, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All62 { first_field: u8 }
impl Whole for All62 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("B", "d", "PascalCase"), ("C", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Text, name_all = "PascalCase")] #[musli(Text, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All63 { first_field: u8 }
impl Whole for All63 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "", "PascalCase"), ("T", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Text, name_all = "PascalCase")] #[musli(Text, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All64 { first_field: u8 }
impl Whole for All64 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "", "PascalCase"), ("T", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Text, name_all = "PascalCase")] #[musli(mode = Custom, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All65 { first_field: u8 }
impl Whole for All65 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "", "PascalCase"), ("C", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Text, name_all = "PascalCase")] #[musli(mode = Custom, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All66 { first_field: u8 }
impl Whole for All66 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "", "PascalCase"), ("C", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Text, name_all = "PascalCase")] #[musli(mode = Custom, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All67 { first_field: u8 }
impl Whole for All67 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "", "PascalCase"), ("C", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, bound = {})]
#[musli(Text, encode_only, name_all = "PascalCase")] #[musli(Text, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All68 { first_field: u8 }
impl Whole for All68 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "e", "PascalCase"), ("T", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Text, encode_only, name_all = "PascalCase")] #[musli(mode = Custom, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All69 { first_field: u8 }
impl Whole for All69 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "e", "PascalCase"), ("C", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Text, encode_only, name_all = "PascalCase")] #[musli(mode = Custom, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All70 { first_field: u8 }
impl Whole for All70 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "e", "PascalCase"), ("C", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Text, encode_only, name_all = "PascalCase")] #[musli(mode = Custom, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All71 { first_field: u8 }
impl Whole for All71 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "e", "PascalCase"), ("C", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Text, decode_only, name_all = "PascalCase")] #[musli(mode = Custom, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All72 { first_field: u8 }
impl Whole for All72 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "d", "PascalCase"), ("C", "", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Text, decode_only, name_all = "PascalCase")] #[musli(mode = Custom, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All73 { first_field: u8 }
impl Whole for All73 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "d", "PascalCase"), ("C", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Text, decode_only, name_all = "PascalCase")] #[musli(mode = Custom, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All74 { first_field: u8 }
impl Whole for All74 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("T", "d", "PascalCase"), ("C", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, name_all = "PascalCase")] #[musli(mode = Custom, encode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All75 { first_field: u8 }
impl Whole for All75 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("C", "", "PascalCase"), ("C", "e", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, name_all = "PascalCase")] #[musli(mode = Custom, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All76 { first_field: u8 }
impl Whole for All76 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("C", "", "PascalCase"), ("C", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Custom, encode_only, name_all = "PascalCase")] #[musli(mode = Custom, decode_only, name_all = "SCREAMING-KEBAB-CASE")]
pub struct All77 { first_field: u8 }
impl Whole for All77 { const SET: &'static [(&'static str, &'static str, &'static str)] = &[("C", "e", "PascalCase"), ("C", "d", "SCREAMING-KEBAB-CASE")]; fn new() -> Self { Self { first_field: 77 } } }
pub fn add<F: Format>(c: &mut Check)
where
    Fields0: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Unit0: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Full0: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Fields1: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Unit1: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Full1: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Fields2: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Unit2: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Full2: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Fields3: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Unit3: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Full3: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Fields4: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Unit4: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    Full4: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All0: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All1: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All2: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All3: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All4: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All5: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All6: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All7: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All8: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All9: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All10: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All11: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All12: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All13: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All14: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All15: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All16: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All17: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All18: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All19: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All20: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All21: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All22: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All23: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All24: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All25: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All26: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All27: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All28: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All29: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All30: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All31: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All32: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All33: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All34: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All35: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All36: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All37: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All38: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All39: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All40: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All41: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All42: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All43: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All44: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All45: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All46: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All47: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All48: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All49: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All50: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All51: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All52: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All53: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All54: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All55: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All56: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All57: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All58: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All59: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All60: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All61: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All62: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All63: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All64: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All65: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All66: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All67: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All68: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All69: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All70: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All71: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All72: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All73: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All74: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All75: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All76: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    All77: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    part::<F, Fields0>(c, 0);
    part::<F, Unit0>(c, 0);
    part::<F, Full0>(c, 0);
    part::<F, Fields1>(c, 1);
    part::<F, Unit1>(c, 1);
    part::<F, Full1>(c, 1);
    part::<F, Fields2>(c, 2);
    part::<F, Unit2>(c, 2);
    part::<F, Full2>(c, 2);
    part::<F, Fields3>(c, 3);
    part::<F, Unit3>(c, 3);
    part::<F, Full3>(c, 3);
    part::<F, Fields4>(c, 4);
    part::<F, Unit4>(c, 4);
    part::<F, Full4>(c, 4);
    whole::<F, All0>(c);
    whole::<F, All1>(c);
    whole::<F, All2>(c);
    whole::<F, All3>(c);
    whole::<F, All4>(c);
    whole::<F, All5>(c);
    whole::<F, All6>(c);
    whole::<F, All7>(c);
    whole::<F, All8>(c);
    whole::<F, All9>(c);
    whole::<F, All10>(c);
    whole::<F, All11>(c);
    whole::<F, All12>(c);
    whole::<F, All13>(c);
    whole::<F, All14>(c);
    whole::<F, All15>(c);
    whole::<F, All16>(c);
    whole::<F, All17>(c);
    whole::<F, All18>(c);
    whole::<F, All19>(c);
    whole::<F, All20>(c);
    whole::<F, All21>(c);
    whole::<F, All22>(c);
    whole::<F, All23>(c);
    whole::<F, All24>(c);
    whole::<F, All25>(c);
    whole::<F, All26>(c);
    whole::<F, All27>(c);
    whole::<F, All28>(c);
    whole::<F, All29>(c);
    whole::<F, All30>(c);
    whole::<F, All31>(c);
    whole::<F, All32>(c);
    whole::<F, All33>(c);
    whole::<F, All34>(c);
    whole::<F, All35>(c);
    whole::<F, All36>(c);
    whole::<F, All37>(c);
    whole::<F, All38>(c);
    whole::<F, All39>(c);
    whole::<F, All40>(c);
    whole::<F, All41>(c);
    whole::<F, All42>(c);
    whole::<F, All43>(c);
    whole::<F, All44>(c);
    whole::<F, All45>(c);
    whole::<F, All46>(c);
    whole::<F, All47>(c);
    whole::<F, All48>(c);
    whole::<F, All49>(c);
    whole::<F, All50>(c);
    whole::<F, All51>(c);
    whole::<F, All52>(c);
    whole::<F, All53>(c);
    whole::<F, All54>(c);
    whole::<F, All55>(c);
    whole::<F, All56>(c);
    whole::<F, All57>(c);
    whole::<F, All58>(c);
    whole::<F, All59>(c);
    whole::<F, All60>(c);
    whole::<F, All61>(c);
    whole::<F, All62>(c);
    whole::<F, All63>(c);
    whole::<F, All64>(c);
    whole::<F, All65>(c);
    whole::<F, All66>(c);
    whole::<F, All67>(c);
    whole::<F, All68>(c);
    whole::<F, All69>(c);
    whole::<F, All70>(c);
    whole::<F, All71>(c);
    whole::<F, All72>(c);
    whole::<F, All73>(c);
    whole::<F, All74>(c);
    whole::<F, All75>(c);
    whole::<F, All76>(c);
    whole::<F, All77>(c);
}
