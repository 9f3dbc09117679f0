// Writes data/encoding_index.bin from encoding_rs: reference tables independent of the library.
// Layout: for each index: name\0, u32 count, count * u32 (0xFFFFFFFF = none), little endian.
use encoding_rs::*;
use std::io::Write;
fn dec(e: &'static Encoding, b: &[u8]) -> u32 {
    match e.decode_without_bom_handling_and_without_replacement(b) {
        Some(s) => { let mut it = s.chars(); let c = it.next().unwrap() as u32; if it.next().is_some() { 0xFFFF_FFFE } else { c } }
        None => 0xFFFF_FFFF,
    }
}
fn main() {
    let mut out = std::fs::File::create(std::env::args().nth(1).unwrap()).unwrap();
    let mut put = |name: &str, v: Vec<u32>| {
        out.write_all(name.as_bytes()).unwrap(); out.write_all(&[0]).unwrap();
        out.write_all(&(v.len() as u32).to_le_bytes()).unwrap();
        for x in v { out.write_all(&x.to_le_bytes()).unwrap(); }
    };
    let sb: [(&str, &'static Encoding); 28] = [("ibm866", IBM866), ("iso-8859-2", ISO_8859_2), ("iso-8859-3", ISO_8859_3), ("iso-8859-4", ISO_8859_4),
        ("iso-8859-5", ISO_8859_5), ("iso-8859-6", ISO_8859_6), ("iso-8859-7", ISO_8859_7), ("iso-8859-8", ISO_8859_8), ("iso-8859-8-i", ISO_8859_8_I), ("iso-8859-10", ISO_8859_10),
        ("iso-8859-13", ISO_8859_13), ("iso-8859-14", ISO_8859_14), ("iso-8859-15", ISO_8859_15), ("iso-8859-16", ISO_8859_16), ("koi8-r", KOI8_R),
        ("koi8-u", KOI8_U), ("macintosh", MACINTOSH), ("windows-874", WINDOWS_874), ("windows-1250", WINDOWS_1250), ("windows-1251", WINDOWS_1251),
        ("windows-1252", WINDOWS_1252), ("windows-1253", WINDOWS_1253), ("windows-1254", WINDOWS_1254), ("windows-1255", WINDOWS_1255), ("windows-1256", WINDOWS_1256),
        ("windows-1257", WINDOWS_1257), ("windows-1258", WINDOWS_1258), ("x-mac-cyrillic", X_MAC_CYRILLIC)];
    for (n, e) in sb.iter() { put(n, (0x80u32..=0xFF).map(|b| dec(e, &[b as u8])).collect()); }
    // big5: pointer = (lead-0x81)*157 + trail-offset
    put("big5", (0..126 * 157u32).map(|p| { let (l, t) = (p / 157 + 0x81, p % 157); dec(BIG5, &[l as u8, (t + if t < 0x3F { 0x40 } else { 0x62 }) as u8]) }).collect());
    put("euc-kr", (0..126 * 190u32).map(|p| { let (l, t) = (p / 190 + 0x81, p % 190 + 0x41); dec(EUC_KR, &[l as u8, t as u8]) }).collect());
    put("gb18030", (0..126 * 190u32).map(|p| { let (l, t) = (p / 190 + 0x81, p % 190); dec(GB18030, &[l as u8, (t + if t < 0x3F { 0x40 } else { 0x41 }) as u8]) }).collect());
    // jis0208 through Shift_JIS (covers all 120 rows)
    put("jis0208", (0..11280u32).map(|p| { if (8836..=10715).contains(&p) { return 0xFFFF_FFFF; } let (l, t) = (p / 188, p % 188);
        dec(SHIFT_JIS, &[(l + if l < 0x1F { 0x81 } else { 0xC1 }) as u8, (t + if t < 0x3F { 0x40 } else { 0x41 }) as u8]) }).collect());
    put("jis0212", (0..94 * 94u32).map(|p| dec(EUC_JP, &[0x8F, (p / 94 + 0xA1) as u8, (p % 94 + 0xA1) as u8])).collect());
    // gb18030 ranges, BMP part: pointer 0..39419
    put("gb18030-ranges", (0..=39419u32).map(|p| dec(GB18030, &[(p / 12600 + 0x81) as u8, (p / 1260 % 10 + 0x30) as u8, (p / 10 % 126 + 0x81) as u8, (p % 10 + 0x30) as u8])).collect());
}
