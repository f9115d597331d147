//! Headers, offsets, indices, names, and strings.

use postscript::compact1::index::{CharacterStrings, Dictionaries, Names, Strings, Subroutines};
use postscript::compact1::{Header, Index, Offset};

use crate::sx::{assume, between, byte, bytes, choose, observe, split, u16};
use crate::tables::STRINGS;
use crate::util::*;
use crate::{check, harnesses, reach};

/// What the bytes of an index mean: the count, the offset size, the offsets, the total size.
struct Layout {
    count: usize,
    size: usize,
    offsets: [u32; 8],
    start: usize,
    end: usize,
}

fn layout(b: &[u8]) -> Option<Layout> {
    if b.len() < 2 {
        return None;
    }
    let count = split(((b[0] as u64) << 8) | b[1] as u64) as usize;
    let mut offsets = [0; 8];
    if count == 0 {
        return Some(Layout { count, size: 0, offsets, start: 2, end: 2 });
    }
    let size = split(*b.get(2)? as u64) as usize;
    if !(1..=4).contains(&size) || count > 7 {
        return None;
    }
    let mut at = 3;
    if b.len() < at + (count + 1) * size {
        return None;
    }
    for i in 0..=count {
        for _ in 0..size {
            offsets[i] = (offsets[i] << 8) | b[at] as u32;
            at += 1;
        }
    }
    let mut fine = offsets[0] == 1;
    for i in 0..count {
        fine &= offsets[i] <= offsets[i + 1];
    }
    if !fine || (b.len() - at) < (offsets[count] as usize).wrapping_sub(1) {
        return None;
    }
    Some(Layout { count, size, offsets, start: at, end: at + offsets[count] as usize - 1 })
}

/// Compare an index against the meaning of its bytes.
fn compare(b: &[u8], index: Option<(Index, usize)>, expected: Option<Layout>) {
    match (index, expected) {
        (Some((index, used)), Some(expected)) => {
            reach!("accepted");
            observe(used as u64);
            observe(index.data.len() as u64);
            check!(index.count as usize == expected.count, "C08 an index has the count of its bytes");
            check!(used == expected.end, "C08 an index consumes exactly its encoding");
            check!(index.data.len() == expected.count, "C08 an index has as many items as its count");
            check!(index.len() == expected.count, "C08 an index dereferences to its items");
            if expected.count > 0 {
                check!(index.offset_size as usize == expected.size, "C08 an index has the offset size of its bytes");
                check!(index.offsets.len() == expected.count + 1, "C08 an index has one offset more than items");
            }
            for i in 0..expected.count.min(index.data.len()) {
                let low = split(expected.offsets[i] as u64) as usize;
                let high = split(expected.offsets[i + 1] as u64) as usize;
                let item = &b[expected.start + low - 1..expected.start + high - 1];
                observe_bytes(&index.data[i]);
                check!(same(&index.data[i], item), "C08 an item of an index is made of the bytes its offsets delimit");
                check!(same(&index[i], item), "C08 an index gives access to its items in order");
                if i < index.offsets.len() {
                    check!(index.offsets[i].0 == expected.offsets[i], "C08 an index keeps its offsets");
                }
            }
        }
        (None, None) => reach!("rejected"),
        (Some(_), None) => check!(false, "C08 malformed and truncated indices are rejected"),
        (None, Some(_)) => check!(false, "C08 well-formed indices are accepted"),
    }
}

fn arbitrary<const N: usize>(count: usize) {
    let b = bytes::<N>();
    let n = choose(N + 1);
    assume((b[0] == 0) & (b[1] as usize <= count));
    let expected = layout(&b[..n]);
    compare(&b[..n], read::<Index>(&b[..n]), expected);
}

/// A well-formed index of symbolic items of chosen sizes.
fn build(size: usize, items: &[&[u8]]) -> Vec<u8> {
    let mut b = vec![(items.len() >> 8) as u8, items.len() as u8];
    if items.is_empty() {
        return b;
    }
    b.push(size as u8);
    let mut offset = 1u32;
    b.extend_from_slice(&offset.to_be_bytes()[4 - size..]);
    for item in items {
        offset += item.len() as u32;
        b.extend_from_slice(&offset.to_be_bytes()[4 - size..]);
    }
    for item in items {
        b.extend_from_slice(item);
    }
    b
}

fn utf8(text: &[u8]) -> bool {
    // one to four bytes
    let continuation = |i: usize| text[i] & 0xc0 == 0x80;
    let mut i = 0;
    while i < text.len() {
        let size = if text[i] < 0x80 {
            1
        } else if (0xc2..=0xdf).contains(&text[i]) {
            2
        } else if (0xe0..=0xef).contains(&text[i]) {
            3
        } else if (0xf0..=0xf4).contains(&text[i]) {
            4
        } else {
            return false;
        };
        if i + size > text.len() {
            return false;
        }
        for j in 1..size {
            if !continuation(i + j) {
                return false;
            }
        }
        if size == 3 {
            if text[i] == 0xe0 && text[i + 1] < 0xa0 {
                return false;
            }
            if text[i] == 0xed && text[i + 1] > 0x9f {
                return false;
            }
        }
        if size == 4 {
            if text[i] == 0xf0 && text[i + 1] < 0x90 {
                return false;
            }
            if text[i] == 0xf4 && text[i + 1] > 0x8f {
                return false;
            }
        }
        i += size;
    }
    true
}

harnesses! {
    fn h_header("C07", Both, ["header", "truncated"], "all headers, in strings of 0 to 5 bytes") {
        let b = bytes::<5>();
        let n = choose(6);
        match read::<Header>(&b[..n]) {
            Some((header, used)) => {
                reach!("header");
                observe(header.major as u64);
                observe(header.minor as u64);
                observe(header.header_size as u64);
                observe(header.offset_size as u64);
                check!(n >= 4, "C07 a truncated header is rejected");
                check!(used == 4, "C07 a header consumes four bytes");
                check!(
                    (header.major == b[0])
                        & (header.minor == b[1])
                        & (header.header_size == b[2])
                        & (header.offset_size == b[3]),
                    "C07 the fields of a header are its bytes in order"
                );
            }
            _ => {
                reach!("truncated");
                check!(n < 4, "C07 a complete header is accepted");
            }
        }
    }

    fn h_offset("C07", Both, ["offset", "rejected", "truncated"],
        "all offsets of all 256 sizes, in strings of 0 to 5 bytes")
    {
        let b = bytes::<5>();
        let n = choose(6);
        let size = byte();
        match read_given::<Offset>(&b[..n], size) {
            Some((Offset(value), used)) => {
                reach!("offset");
                observe(value as u64);
                let size = split(size as u64) as usize;
                check!((size >= 1) & (size <= 4), "C07 offset sizes other than 1 to 4 are rejected");
                check!(size <= n, "C07 a truncated offset is rejected");
                if size > n {
                    return;
                }
                let mut expected = 0u32;
                for i in 0..size {
                    expected = (expected << 8) | b[i] as u32;
                }
                check!(value == expected, "C07 an offset is the big-endian value of its bytes");
                check!(used == size, "C07 an offset consumes as many bytes as its size");
            }
            _ => {
                let fine = (size >= 1) & (size <= 4);
                if fine {
                    reach!("truncated");
                } else {
                    reach!("rejected");
                }
                check!(!fine | (size as usize > n), "C07 every complete offset of a size from 1 to 4 is accepted");
            }
        }
    }

    fn h_offset_order("C07", Both, ["order"], "all pairs of offsets") {
        let (one, other) = (crate::sx::u32(), crate::sx::u32());
        reach!("order");
        check!((Offset(one) < Offset(other)) == (one < other), "C07 offsets are ordered by value");
        check!((Offset(one) == Offset(other)) == (one == other), "C07 offsets are equal by value");
    }

    fn h_index("C08", Quick, ["accepted", "rejected"],
        "all strings of 0 to 12 bytes that declare at most 2 items")
    {
        arbitrary::<12>(2);
    }

    fn h_index_more("C08", Quick, ["accepted", "rejected"],
        "all strings of 0 to 16 bytes that declare at most 3 items")
    {
        arbitrary::<16>(3);
    }

    fn h_index_most("C08", Thorough, ["accepted", "rejected"],
        "all strings of 0 to 20 bytes that declare at most 3 items")
    {
        arbitrary::<20>(3);
    }

    fn h_index_wide("C08", Both, ["accepted"],
        "indices of 1 to 3 items of 0 to 3 symbolic bytes each with offsets of 1 to 4 bytes, followed by other data")
    {
        let size = 1 + choose(4);
        let count = 1 + choose(3);
        let data = bytes::<10>();
        let mut items = vec![];
        let mut at = 0;
        for _ in 0..count {
            let n = choose(4);
            items.push(&data[at..at + n]);
            at += n;
        }
        let mut b = build(size, &items);
        let end = b.len();
        b.push(data[9]);
        match read::<Index>(&b) {
            Some((index, used)) => {
                reach!("accepted");
                check!(used == end, "C08 an index consumes exactly its encoding");
                check!(index.data.len() == count, "C08 an index has as many items as its count");
                for i in 0..count.min(index.data.len()) {
                    check!(same(&index.data[i], items[i]), "C08 an item of an index is made of the bytes its offsets delimit");
                }
            }
            _ => check!(false, "C08 well-formed indices are accepted"),
        }
    }

    fn h_index_long("C08", Both, ["accepted"],
        "indices of 255, 256, 300, and 1000 items of one symbolic byte at each of 3 positions, offsets of 2 to 4 bytes")
    {
        let count = [255, 256, 300, 1000][choose(4)];
        let size = 2 + choose(3);
        let k = [0, 255.min(count - 1), count - 1][choose(3)];
        let value = byte();
        let mut items: Vec<&[u8]> = vec![&[7]; count];
        let item = [value];
        items[k] = &item;
        let b = build(size, &items);
        match read::<Index>(&b) {
            Some((index, used)) => {
                reach!("accepted");
                check!(used == b.len(), "C08 an index consumes exactly its encoding");
                check!(index.count as usize == count, "C08 an index has the count of its bytes");
                check!(index.data.len() == count, "C08 an index has as many items as its count");
                for i in 0..count.min(index.data.len()) {
                    check!(same(&index.data[i], items[i]), "C08 an item of an index is made of the bytes its offsets delimit");
                }
            }
            _ => check!(false, "C08 well-formed indices are accepted"),
        }
    }

    fn h_index_kinds("C08", Both, ["names", "subroutines", "character strings", "format"],
        "names, strings, dictionaries, subroutines, and character strings of up to 2 items in 8 symbolic bytes; all formats of character strings")
    {
        let b = bytes::<8>();
        assume((b[0] == 0) & (b[1] <= 2));
        let expected = layout(&b);
        match choose(6) {
            0 => {
                reach!("names");
                compare(&b, read::<Names>(&b).map(|(value, used)| (value.0, used)), expected);
            }
            1 => compare(&b, read::<Strings>(&b).map(|(value, used)| (value.0, used)), expected),
            2 => compare(&b, read::<Dictionaries>(&b).map(|(value, used)| (value.0, used)), expected),
            3 => {
                reach!("subroutines");
                compare(&b, read::<Subroutines>(&b).map(|(value, used)| (value.0, used)), expected);
            }
            4 => {
                reach!("character strings");
                compare(&b, read_given::<CharacterStrings>(&b, 2).map(|(value, used)| (value.0, used)), expected);
            }
            _ => {
                let format = crate::sx::u32() as i32;
                assume(format != 2);
                reach!("format");
                check!(
                    read_given::<CharacterStrings>(&b, format).is_none(),
                    "C08 character strings of a type other than 2 are rejected"
                );
            }
        }
    }

    fn h_strings_standard("C11", Both, ["standard"],
        "all 391 standard identifiers, against 0 to 1 strings of a font")
    {
        let id = u16();
        assume(id < 391);
        let data = if choose(2) == 0 { vec![] } else { vec![vec![byte()]] };
        let strings = Strings(Index { count: data.len() as u16, offset_size: 1, offsets: vec![], data });
        let value = strings.get(id);
        let id = split(id as u64) as usize;
        reach!("standard");
        match value {
            Some(value) => {
                observe_bytes(value.as_bytes());
                check!(same(value.as_bytes(), STRINGS[id].as_bytes()), "C11 a standard identifier gives its standard string");
            }
            _ => check!(false, "C11 every standard identifier has a string"),
        }
    }

    fn h_strings_custom("C11", Both, ["found", "missing", "invalid"],
        "all identifiers from 391 to 65535, against 0 to 3 strings of 2 symbolic bytes of a font")
    {
        let count = choose(4);
        let b = bytes::<6>();
        let data: Vec<Vec<u8>> = (0..count).map(|i| b[2 * i..2 * i + 2].to_vec()).collect();
        let strings = Strings(Index { count: count as u16, offset_size: 1, offsets: vec![], data });
        let id = u16();
        assume(id >= 391);
        match strings.get(id) {
            Some(value) => {
                let k = split(id as u64 - 391) as usize;
                check!(k < count, "C11 an identifier past the strings of a font has no string");
                if k >= count {
                    return;
                }
                let text = &b[2 * k..2 * k + 2];
                if utf8(text) {
                    reach!("found");
                    observe_bytes(value.as_bytes());
                    check!(same(value.as_bytes(), text), "C11 a custom identifier gives the string of the font");
                } else {
                    reach!("invalid");
                }
            }
            _ => {
                reach!("missing");
                check!(id as usize - 391 >= count, "C11 an identifier within the strings of a font has a string");
            }
        }
    }

    fn h_strings_sizes("C11", Both, ["found"],
        "strings of a font of 0 to 70, 126 to 129, 254 to 257, 1000, and 65536 bytes, the first and last of which are any; 1, 300, and 2000 strings before it")
    {
        let data = sized();
        let before = [1, 300, 2000][choose(3)];
        let mut items = vec![vec![]; before];
        items.push(data.clone());
        items.push(vec![65]);
        let strings = Strings(Index { count: items.len() as u16, offset_size: 3, offsets: vec![], data: items });
        match strings.get(391 + before as u16) {
            Some(string) => {
                reach!("found");
                check!(
                    !utf8(&data) || same(string.as_bytes(), &data),
                    "C11 a string of a font is found by its position after standard ones"
                );
            }
            _ => check!(false, "C11 an identifier within the strings of a font has a string"),
        }
    }

    fn h_strings_many("C11", Both, ["found"], "any identifier against 500 strings of a font with 1 symbolic character") {
        let k = [0, 1, 255, 256, 499][choose(5)];
        let value = between(32, 126);
        let mut data = vec![vec![b'?']; 500];
        data[k] = vec![value];
        let strings = Strings(Index { count: 500, offset_size: 2, offsets: vec![], data });
        reach!("found");
        match strings.get((391 + k) as u16) {
            Some(text) => check!(same(text.as_bytes(), &[value]), "C11 a custom identifier gives the string of the font"),
            _ => check!(false, "C11 an identifier within the strings of a font has a string"),
        }
        check!(strings.get(391 + 500).is_none(), "C11 an identifier past the strings of a font has no string");
    }

    fn h_names("C29", Quick, ["valid", "invalid"], "up to 2 names of up to 2 symbolic bytes each") {
        names::<2>(2);
    }

    fn h_names_more("C29", Both, ["valid", "invalid"], "up to 1 name of up to 4 symbolic bytes") {
        names::<4>(1);
    }

    fn h_names_sizes("C29", Both, ["valid", "invalid"],
        "names of 0 to 70, 126 to 129, 254 to 257, 1000, and 65536 bytes, the first and last of which are any, next to other names")
    {
        let data = sized();
        named(vec![vec![65; 3], data, vec![66]]);
    }

    fn h_names_many("C29", Both, ["valid", "invalid"],
        "3 to 40, 255, 256, 257, and 5000 names with any byte in the first and last ones")
    {
        let count = match choose(42) {
            k if k < 38 => 3 + k,
            k => [255, 256, 257, 5000][k - 38],
        };
        let b = bytes::<2>();
        named((0..count).map(|i| if i == 0 { vec![b[0]] } else if i + 1 == count { vec![b[1]] } else { vec![97 + (i % 26) as u8; i % 3] }).collect());
    }
}

/// Data of many sizes whose ends are symbolic.
fn sized() -> Vec<u8> {
    let size = match choose(81) {
        k if k < 71 => k,
        k => [126, 127, 128, 129, 254, 255, 256, 257, 1000, 65536][k - 71],
    };
    let mut data: Vec<u8> = (0..size).map(|i| 97 + (i % 26) as u8).collect();
    let b = bytes::<2>();
    if size > 0 {
        data[0] = b[0];
        data[size - 1] = b[1];
    }
    data
}

fn names<const N: usize>(limit: usize) {
    let count = choose(limit + 1);
    let mut data = vec![];
    for _ in 0..count {
        let b = bytes::<N>();
        data.push(b[..choose(N + 1)].to_vec());
    }
    named(data);
}

fn named(data: Vec<Vec<u8>>) {
    let count = data.len();
    let index = Index { count: count as u16, offset_size: 1, offsets: vec![], data: data.clone() };
    match <Vec<String>>::try_from(Names(index)) {
        Ok(names) => {
            check!(names.len() == count, "C29 there are as many names as items");
            for i in 0..count.min(names.len()) {
                if utf8(&data[i]) {
                    reach!("valid");
                    observe_bytes(names[i].as_bytes());
                    check!(same(names[i].as_bytes(), &data[i]), "C29 a name in UTF-8 is kept as it is");
                } else {
                    reach!("invalid");
                    check!(
                        names[i].contains('\u{fffd}'),
                        "C29 a name in another encoding is kept with replacement characters"
                    );
                }
            }
        }
        _ => check!(false, "C29 names are never rejected"),
    }
}
