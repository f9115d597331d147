//! Font sets.

use std::io::Cursor;

use postscript::compact1::font_set::{character_id_keyed, Record};
use postscript::compact1::{CharacterSet, Encoding, FontSet, Number, Operator};

use crate::sx::{assume, between, byte, bytes, choose, observe, split, u32};
use crate::util::*;
use crate::{check, harnesses, reach};

/// An index of items with offsets as short as possible.
pub fn index(b: &mut Vec<u8>, items: &[&[u8]]) {
    b.extend_from_slice(&[(items.len() >> 8) as u8, items.len() as u8]);
    if items.is_empty() {
        return;
    }
    let total: usize = items.iter().map(|item| item.len()).sum();
    let size = match total {
        0..=200 => 1,
        201..=65000 => 2,
        _ => 4,
    };
    b.push(size as u8);
    let mut offset = 1;
    let mut push = |offset: usize| b.extend_from_slice(&(offset as u32).to_be_bytes()[4 - size..]);
    push(offset);
    for item in items {
        offset += item.len();
        push(offset);
    }
    for item in items {
        b.extend_from_slice(item);
    }
}

/// An integer operand whose size does not depend on its value.
pub fn number(b: &mut Vec<u8>, value: i32) {
    b.push(29);
    b.extend_from_slice(&value.to_be_bytes());
}

pub fn entry(b: &mut Vec<u8>, operands: &[i32], operator: u16) {
    for value in operands {
        number(b, *value);
    }
    if operator > 255 {
        b.push(12);
    }
    b.push(operator as u8);
}

/// What is placed in a font.
pub struct Plan {
    pub major: u8,
    pub offset_size: u8,
    pub padding: usize,
    pub gap: usize,
    pub reverse: bool,
    pub name: Vec<u8>,
    pub strings: Vec<Vec<u8>>,
    pub global: Vec<Vec<u8>>,
    pub fonts: Vec<Font>,
    pub alter: Alter,
    /// Whether all fonts are the same and have everything in common.
    pub shared: bool,
}

/// An operator of any dictionary that gets another number of operands and another first one.
pub type Alter = Option<(u16, usize, Option<i32>)>;

fn alter(b: &mut Vec<u8>, operands: &[i32], operator: u16, alter: Alter) {
    match alter {
        Some((another, count, value)) if another == operator => {
            let mut operands: Vec<i32> = (0..count).map(|i| operands[i % operands.len()]).collect();
            if let (Some(first), Some(value)) = (operands.first_mut(), value) {
                *first = value;
            }
            entry(b, &operands, operator);
        }
        _ => entry(b, operands, operator),
    }
}

#[derive(Clone, Default)]
pub struct Font {
    pub glyphs: Vec<Vec<u8>>,
    pub charset: Option<Vec<u8>>,
    pub encoding: Option<Vec<u8>>,
    pub privates: Vec<Private>,
    /// ROS and the selector of dictionaries.
    pub cid: Option<(Vec<i32>, Vec<u8>)>,
    /// The unique identifier.
    pub unique: Option<u8>,
    /// Whether there are entries of the other kind of fonts as well.
    pub both: bool,
}

#[derive(Clone, Default)]
pub struct Private {
    pub width: u8,
    /// Other entries at the beginning.
    pub others: usize,
    /// Whether the dictionary goes on past its subroutines.
    pub around: bool,
    pub local: Option<Vec<Vec<u8>>>,
    /// Between the dictionary and its subroutines.
    pub gap: usize,
}

fn items(items: &[Vec<u8>]) -> Vec<&[u8]> {
    items.iter().map(|item| &item[..]).collect()
}

/// The places of the parts of a font.
#[derive(Clone, Default)]
struct Place {
    glyphs: usize,
    charset: usize,
    encoding: usize,
    privates: Vec<(usize, usize)>,
    selector: usize,
    dictionaries: usize,
}

fn top(font: &Font, place: &Place, another: Alter) -> Vec<u8> {
    let mut b = vec![];
    if let Some(value) = font.unique {
        b.extend_from_slice(&[value, 13]);
    }
    if font.both {
        if font.cid.is_some() {
            let place = place.privates.first().copied().unwrap_or((0, 0));
            entry(&mut b, &[place.1 as i32, place.0 as i32], 18);
        } else {
            entry(&mut b, &[place.glyphs as i32], 0xc24);
            entry(&mut b, &[place.glyphs as i32], 0xc25);
        }
    }
    if let Some((ros, _)) = &font.cid {
        alter(&mut b, ros, 0xc1e, another);
        alter(&mut b, &[place.dictionaries as i32], 0xc24, another);
        alter(&mut b, &[place.selector as i32], 0xc25, another);
    } else {
        alter(&mut b, &[place.privates.first().map_or(0, |place| place.1) as i32, place.privates.first().map_or(0, |place| place.0) as i32], 18, another);
    }
    if font.charset.is_some() {
        alter(&mut b, &[place.charset as i32], 15, another);
    }
    if font.encoding.is_some() {
        alter(&mut b, &[place.encoding as i32], 16, another);
    }
    alter(&mut b, &[place.glyphs as i32], 17, another);
    if matches!(another, Some((0 | 1 | 4 | 5 | 13 | 14 | 20 | 21 | 0xc06 | 0xc07 | 0xc22, _, _))) {
        // not there otherwise
        alter(&mut b, &[2], another.unwrap().0, another);
    }
    b
}

/// The name of a font, which is of its own.
fn name(plan: &Plan, i: usize) -> Vec<u8> {
    [&plan.name[..], &vec![b'a' + i as u8; i]].concat()
}

/// Write a font set; offsets are relative to its first byte.
pub fn write(plan: &Plan) -> Vec<u8> {
    let mut places = vec![Place::default(); plan.fonts.len()];
    // the sizes do not depend on the places
    write_at(plan, &mut places);
    write_at(plan, &mut places)
}

fn write_at(plan: &Plan, places: &mut [Place]) -> Vec<u8> {
    let mut b = vec![plan.major, 0, 4 + plan.padding as u8, plan.offset_size];
    b.resize(4 + plan.padding, 0xee);
    let names: Vec<Vec<u8>> = (0..plan.fonts.len()).map(|i| name(plan, i)).collect();
    index(&mut b, &items(&names));
    let tops: Vec<Vec<u8>> = plan.fonts.iter().zip(places.iter()).map(|(font, place)| top(font, place, plan.alter)).collect();
    index(&mut b, &items(&tops));
    index(&mut b, &items(&plan.strings));
    index(&mut b, &items(&plan.global));
    let order: Vec<usize> = if plan.reverse { (0..6).rev().collect() } else { (0..6).collect() };
    let mut first: Option<Place> = None;
    for (font, place) in plan.fonts.iter().zip(places.iter_mut()) {
        if let (true, Some(first)) = (plan.shared, &first) {
            *place = first.clone();
            continue;
        }
        place.privates.resize(font.privates.len(), (0, 0));
        for part in order.iter() {
            b.resize(b.len() + plan.gap, 0xee);
            match part {
                0 => {
                    place.glyphs = b.len();
                    index(&mut b, &items(&font.glyphs));
                }
                1 => {
                    place.charset = b.len();
                    if let Some(charset) = &font.charset {
                        b.extend_from_slice(charset);
                    }
                }
                2 => {
                    place.encoding = b.len();
                    if let Some(encoding) = &font.encoding {
                        b.extend_from_slice(encoding);
                    }
                }
                3 => {
                    for (i, private) in font.privates.iter().enumerate() {
                        let start = b.len();
                        for _ in 0..private.others {
                            b.extend_from_slice(&[139, 140, 6]);
                        }
                        b.extend_from_slice(&[private.width, 20]);
                        if private.local.is_some() {
                            // relative to the beginning of the dictionary, of which this is the end
                            let size = 3 * private.others + 2 + 6;
                            alter(&mut b, &[(size + private.gap) as i32], 19, plan.alter);
                        }
                        let mut end = b.len();
                        if let Some(local) = &private.local {
                            b.resize(b.len() + private.gap, 0xee);
                            index(&mut b, &items(local));
                            if private.around {
                                end = b.len();
                            }
                        }
                        place.privates[i] = (start, end - start);
                    }
                }
                4 => {
                    place.selector = b.len();
                    if let Some((_, selector)) = &font.cid {
                        b.extend_from_slice(selector);
                    }
                }
                _ => {
                    place.dictionaries = b.len();
                    if font.cid.is_some() {
                        let privates = place.privates.clone();
                        let dictionaries: Vec<Vec<u8>> = (0..font.privates.len())
                            .map(|i| {
                                let mut b = vec![];
                                alter(&mut b, &[privates[i].1 as i32, privates[i].0 as i32], 18, plan.alter);
                                b
                            })
                            .collect();
                        index(&mut b, &items(&dictionaries));
                    }
                }
            }
        }
        first = first.or_else(|| Some(place.clone()));
    }
    b
}

fn vectors(found: &[Vec<u8>], expected: &[Vec<u8>]) -> bool {
    if found.len() != expected.len() {
        return false;
    }
    let mut result = true;
    for i in 0..expected.len() {
        result &= same(&found[i], &expected[i]);
    }
    result
}

fn width(operations: &postscript::compact1::Operations, private: &Private) -> bool {
    match operations.get_single(Operator::DefaultWidthX) {
        Some(Number::Integer(value)) => {
            observe(value as u64);
            value == private.width as i32 - 139
        }
        _ => false,
    }
}

fn local(found: &[Vec<u8>], private: &Private) -> bool {
    match &private.local {
        Some(local) => vectors(found, local),
        _ => found.is_empty(),
    }
}

/// Compare a font set against its plan.
fn compare(set: &FontSet, plan: &Plan) {
    check!(
        (set.header.major == plan.major)
            & (set.header.header_size == 4 + plan.padding as u8)
            & (set.header.offset_size == plan.offset_size),
        "C18 a font set has its header"
    );
    let count = plan.fonts.len();
    check!(set.names.len() == count, "C18 a font set has its names, which follow the header of the declared size");
    for i in 0..set.names.len() {
        check!(same(&set.names[i], &name(plan, i)), "C18 a font set has its names, which follow the header of the declared size");
    }
    check!(vectors(&set.strings, &plan.strings), "C18 a font set has its strings");
    check!(vectors(&set.subroutines, &plan.global), "C18 a font set has its global subroutines");
    check!(
        (set.operations.len() == count)
            & (set.encodings.len() == count)
            & (set.character_strings.len() == count)
            & (set.character_sets.len() == count)
            & (set.records.len() == count),
        "C18 a font set has the same number of everything"
    );
    if set.records.len() != count || set.character_strings.len() != count {
        return;
    }
    for (i, font) in plan.fonts.iter().enumerate() {
        check!(
            vectors(&set.character_strings[i], &font.glyphs),
            "C18 character strings are found relative to the beginning of the font set"
        );
        for glyph in set.character_strings[i].iter() {
            observe_bytes(glyph);
        }
        if let Some(value) = font.unique {
            check!(
                match set.operations[i].get_single(Operator::UniqueID) {
                    Some(Number::Integer(found)) => found == value as i32 - 139,
                    _ => false,
                },
                "C18 a font has its own top dictionary"
            );
        }
        match (&font.charset, &set.character_sets[i]) {
            (None, CharacterSet::ISOAdobe) => reach!("default character set"),
            (Some(bytes), CharacterSet::Format0(set)) => {
                reach!("character set");
                let mut fine = set.glyphs.len() == font.glyphs.len() - 1;
                for k in 0..set.glyphs.len().min(font.glyphs.len() - 1) {
                    observe(set.glyphs[k] as u64);
                    fine &= set.glyphs[k] == (bytes[1 + 2 * k] as u16) << 8 | bytes[2 + 2 * k] as u16;
                }
                check!(fine, "C18 a character set is found relative to the beginning of the font set");
            }
            (Some(bytes), CharacterSet::Format1(set)) => {
                let mut fine = bytes[0] == 1 && 3 * set.ranges.len() == bytes.len() - 1;
                for (k, range) in set.ranges.iter().enumerate() {
                    let bytes = match bytes.get(1 + 3 * k..4 + 3 * k) {
                        Some(bytes) => bytes,
                        _ => break,
                    };
                    observe(range.first_string_id as u64);
                    fine &= (range.first_string_id == (bytes[0] as u16) << 8 | bytes[1] as u16) & (range.left_count == bytes[2]);
                }
                check!(fine, "C18 a character set is found relative to the beginning of the font set");
            }
            (Some(bytes), CharacterSet::Format2(set)) => {
                let mut fine = bytes[0] == 2 && 4 * set.ranges.len() == bytes.len() - 1;
                for (k, range) in set.ranges.iter().enumerate() {
                    let bytes = match bytes.get(1 + 4 * k..5 + 4 * k) {
                        Some(bytes) => bytes,
                        _ => break,
                    };
                    observe(range.first_string_id as u64);
                    fine &= (range.first_string_id == (bytes[0] as u16) << 8 | bytes[1] as u16)
                        & (range.left_count == (bytes[2] as u16) << 8 | bytes[3] as u16);
                }
                check!(fine, "C18 a character set is found relative to the beginning of the font set");
            }
            _ => check!(false, "C18 a character set is found relative to the beginning of the font set"),
        }
        match (&font.encoding, &set.encodings[i]) {
            (None, Encoding::Standard) => reach!("default encoding"),
            (Some(bytes), Encoding::Format0(encoding)) => {
                reach!("encoding");
                observe_bytes(&encoding.codes);
                check!(
                    same(&encoding.codes, &bytes[2..]),
                    "C18 an encoding is found relative to the beginning of the font set"
                );
            }
            (Some(bytes), Encoding::Format1(encoding)) => {
                let mut fine = bytes[0] == 1 && 2 * encoding.ranges.len() == bytes.len() - 2;
                for (k, range) in encoding.ranges.iter().enumerate() {
                    let bytes = match bytes.get(2 + 2 * k..4 + 2 * k) {
                        Some(bytes) => bytes,
                        _ => break,
                    };
                    observe(range.first_code as u64);
                    fine &= (range.first_code == bytes[0]) & (range.left_count == bytes[1]);
                }
                check!(fine, "C18 an encoding is found relative to the beginning of the font set");
            }
            _ => check!(false, "C18 an encoding is found relative to the beginning of the font set"),
        }
        match (&font.cid, &set.records[i]) {
            (None, Record::CharacterNameKeyed(record)) => {
                reach!("name-keyed");
                check!(
                    width(&record.operations, &font.privates[0]),
                    "C18 a private dictionary is found relative to the beginning of the font set"
                );
                check!(
                    local(&record.subroutines, &font.privates[0]),
                    "C18 local subroutines are found relative to their private dictionary"
                );
            }
            (Some((ros, selector)), Record::CharacterIDKeyed(record)) => {
                reach!("id-keyed");
                observe(record.registry as u64);
                check!(
                    (record.registry as i32 == ros[0])
                        & (record.ordering as i32 == ros[1])
                        & match record.supplement {
                            Number::Integer(value) => value == ros[2],
                            _ => false,
                        },
                    "C19 a character-ID-keyed font has its registry, ordering, and supplement in order"
                );
                let encoded = match &record.encoding {
                    character_id_keyed::Encoding::Format0(encoding) => {
                        (selector[0] == 0) & same(&encoding.dictionary_ids, &selector[1..])
                    }
                    character_id_keyed::Encoding::Format3(encoding) => {
                        let n = encoding.ranges.len();
                        (selector[0] == 3) & (selector.len() == 5 + 3 * n) && {
                            let mut fine = encoding.glyph_count
                                == (selector[3 + 3 * n] as u16) << 8 | selector[4 + 3 * n] as u16;
                            for (k, range) in encoding.ranges.iter().enumerate() {
                                let bytes = &selector[3 + 3 * k..];
                                fine &= (range.first_glyph_id == (bytes[0] as u16) << 8 | bytes[1] as u16)
                                    & (range.dictionary_id == bytes[2]);
                            }
                            fine
                        }
                    }
                };
                check!(encoded, "C19 a character-ID-keyed font has the selector at its offset");
                let count = font.privates.len();
                check!(
                    (record.operations.len() == count) & (record.records.len() == count),
                    "C19 a character-ID-keyed font has a record per font dictionary"
                );
                for k in 0..count.min(record.records.len()) {
                    check!(
                        width(&record.records[k].operations, &font.privates[k]),
                        "C19 each font dictionary has its own private dictionary"
                    );
                    check!(
                        local(&record.records[k].subroutines, &font.privates[k]),
                        "C19 each font dictionary has its own local subroutines"
                    );
                }
            }
            (None, _) => check!(false, "C19 a font without ROS is character-name-keyed"),
            (Some(_), _) => check!(false, "C19 a font with ROS is character-ID-keyed"),
        }
    }
}

fn run(plan: &Plan, prefix: &[u8]) {
    let mut b = prefix.to_vec();
    b.extend_from_slice(&write(plan));
    let mut tape = Cursor::new(&b[..]);
    tape.set_position(prefix.len() as u64);
    match tape.take::<FontSet>() {
        Ok(set) => compare(&set, plan),
        _ => check!(false, "C18 well-formed font sets are accepted"),
    }
    let mut tape = Cursor::new(&b[..]);
    tape.set_position(prefix.len() as u64);
    match FontSet::count(&mut tape) {
        Ok(count) => check!(count == plan.fonts.len(), "C18 the count of a font set is the number of its fonts"),
        _ => check!(false, "C18 the count of a font set is the number of its fonts"),
    }
}

fn prefix(b: &[u8; 9]) -> &[u8] {
    &b[..[0, 1, 9][choose(3)]]
}

fn name_keyed(b: &[u8; 14], full: bool, glyphs: usize) -> Font {
    Font {
        glyphs: vec![vec![b[0]], vec![], vec![b[1], b[2]]][3 - glyphs..].to_vec(),
        charset: if full { Some([&[0], &b[3..][..2 * (glyphs - 1)]].concat()) } else { None },
        encoding: if full { Some(vec![0, 2, b[7], b[8]]) } else { None },
        privates: vec![Private {
            width: b[9],
            local: if full { Some(vec![vec![b[10], b[11]], vec![b[12]]]) } else { None },
            ..Default::default()
        }],
        cid: None,
        ..Default::default()
    }
}

fn plan(fonts: Vec<Font>, b: &[u8; 5]) -> Plan {
    Plan {
        major: b[0],
        offset_size: b[1],
        padding: 3 * choose(2),
        gap: 2 * choose(2),
        reverse: choose(2) == 1,
        name: vec![b[2]],
        strings: vec![vec![b[3]], vec![]],
        global: vec![vec![b[4]]],
        fonts,
        alter: None,
            shared: false,
    }
}

/// A small font with everything in it.
pub fn simple(id_keyed: bool, ros: Option<Vec<i32>>, alter: Alter) -> Vec<u8> {
    simple_with(id_keyed, ros, alter, false)
}

fn simple_with(id_keyed: bool, ros: Option<Vec<i32>>, alter: Alter, both: bool) -> Vec<u8> {
    let glyphs = vec![vec![14], vec![14]];
    let local = Some(vec![vec![11]]);
    let plan = Plan {
        major: 1,
        offset_size: 1,
        padding: 0,
        gap: 0,
        reverse: false,
        name: vec![b'n'],
        strings: vec![],
        global: vec![],
        fonts: vec![Font {
            glyphs,
            charset: Some(vec![0, 0, 1]),
            encoding: Some(vec![0, 1, 65]),
            privates: vec![Private { width: 139, local, ..Default::default() }],
            cid: if id_keyed { Some((ros.unwrap_or(vec![1, 2, 0]), vec![0, 0, 0])) } else { None },
            both,
            ..Default::default()
        }],
        alter,
        shared: false,
    };
    write(&plan)
}

/// A font whose selected operand is arbitrary.
pub fn odd(which: usize, value: i32, real: bool, id_keyed: bool) -> Vec<u8> {
    let mut b = simple(id_keyed, None, None);
    // find the operand in question: operands have five bytes
    let mut k = 0;
    let mut found = None;
    let mut i = 0;
    while i + 5 <= b.len() {
        if b[i] == 29 && b[i + 1] == 0 && b[i + 2] == 0 {
            if k == which {
                found = Some(i);
                break;
            }
            k += 1;
            i += 5;
        } else {
            i += 1;
        }
    }
    if let Some(i) = found {
        if real {
            // 12, padded with zeros
            b[i..i + 5].copy_from_slice(&[0x1e, 0x12, 0xff, 0x8b, 0x8b]);
        } else {
            b[i + 1..i + 5].copy_from_slice(&value.to_be_bytes());
        }
    }
    b
}

/// Read a font set with an arbitrary operand; small offsets are tried one by one.
fn arbitrary(id_keyed: bool, operands: usize) {
    let which = choose(operands);
    let mut value = u32() as i32;
    if value >= 0 && value < 192 {
        value = split(value as u64) as i32;
    }
    let b = odd(which, value, choose(2) == 1, id_keyed);
    match Cursor::new(&b[..]).take::<FontSet>() {
        Ok(set) => {
            reach!("accepted");
            observe(set.records.len() as u64);
        }
        _ => reach!("rejected"),
    }
}

fn corrupted(id_keyed: bool) {
    let mut b = odd(99, 0, false, id_keyed);
    let k = choose(b.len());
    b[k] = byte();
    match Cursor::new(&b[..]).take::<FontSet>() {
        Ok(_) => reach!("accepted"),
        _ => reach!("rejected"),
    }
}

harnesses! {
    fn h_font_place("C18", Both,
        ["name-keyed", "character set", "encoding", "default character set", "default encoding"],
        "a font of 3 glyphs with symbolic contents after 0, 1, and 9 other symbolic bytes, with and without gaps, header padding, charset, encoding, and subroutines, in 2 orders of parts")
    {
        let b = bytes::<14>();
        assume((b[9] >= 32) & (b[9] <= 246));
        let font = name_keyed(&b, choose(2) == 1, 3);
        let before = bytes::<9>();
        run(&plan(vec![font], &bytes::<5>()), prefix(&before));
    }

    fn h_font_subroutines("C18", Both, ["name-keyed"],
        "local subroutines 0 to 20 bytes after their private dictionary, of 0 to 3 symbolic bytes")
    {
        let b = bytes::<3>();
        let n = choose(4);
        let font = Font {
            glyphs: vec![vec![14]],
            privates: vec![Private { width: between(32, 246), local: Some(vec![b[..n].to_vec()]), gap: choose(21), ..Default::default() }],
            ..Default::default()
        };
        run(&plan(vec![font], &bytes::<5>()), &[0; 3]);
    }

    fn h_font_formats("C18", Both, ["name-keyed"],
        "sets of 1 to 2 fonts with character sets in formats 1 and 2 of 1 to 3 ranges, encodings in format 1 of 0 to 2 ranges, unique identifiers, and with or without entries of the other kind of fonts, all with symbolic contents")
    {
        let fonts = (0..1 + choose(2))
            .map(|_| {
                let kind = 1 + choose(2);
                let mut charset = vec![kind as u8];
                for left in [&[2][..], &[0, 1], &[0, 0, 0]][choose(3)] {
                    charset.extend_from_slice(&bytes::<2>());
                    if kind == 2 {
                        charset.push(0);
                    }
                    charset.push(*left);
                }
                let count = choose(3);
                let mut encoding = vec![1, count as u8];
                encoding.extend_from_slice(&bytes::<4>()[..2 * count]);
                Font {
                    glyphs: vec![vec![14]; 4],
                    charset: Some(charset),
                    encoding: Some(encoding),
                    privates: vec![Private { width: between(32, 246), ..Default::default() }],
                    unique: Some(between(32, 246)),
                    both: choose(2) == 1,
                    ..Default::default()
                }
            })
            .collect();
        let b = bytes::<5>();
        let plan = Plan {
            major: b[0],
            offset_size: b[1],
            padding: 0,
            gap: 0,
            reverse: choose(2) == 1,
            name: vec![b[2]],
            strings: vec![vec![b[3]], vec![]],
            global: vec![vec![b[4]]],
            fonts,
            alter: None,
            shared: false,
        };
        run(&plan, &[]);
    }

    fn h_font_several("C18", Both, ["name-keyed"],
        "0 to 3 fonts of 1 to 3 glyphs each in one set, with symbolic contents, after 0 to 9 other bytes")
    {
        let mut fonts = vec![];
        for _ in 0..choose(4) {
            let b = bytes::<14>();
            assume((b[9] >= 32) & (b[9] <= 246));
            fonts.push(name_keyed(&b, true, 1 + choose(3)));
        }
        let count = fonts.len();
        let before = bytes::<9>();
        let plan = Plan {
            padding: choose(2),
            gap: 1,
            reverse: false,
            major: 1,
            offset_size: 4,
            name: vec![65],
            strings: vec![],
            global: vec![],
            fonts,
            alter: None,
            shared: false,
        };
        observe(count as u64);
        run(&plan, prefix(&before));
    }

    fn h_font_place_id("C18", Both, ["id-keyed"],
        "a character-ID-keyed font of 2 glyphs and 2 private dictionaries with symbolic contents after 0, 1, and 9 other symbolic bytes, with and without gaps and header padding, in 2 orders of parts")
    {
        let b = bytes::<10>();
        let privates = (0..2)
            .map(|i| Private { width: between(32, 246), local: Some(vec![vec![b[i]], vec![b[2 + i]]]), gap: 3 * i, ..Default::default() })
            .collect();
        let font = Font {
            glyphs: vec![vec![b[4]], vec![b[5]]],
            privates,
            cid: Some((vec![b[6] as i32, b[7] as i32, 1], vec![0, b[8], b[9]])),
            ..Default::default()
        };
        let before = bytes::<9>();
        run(&plan(vec![font], &bytes::<5>()), prefix(&before));
    }

    fn h_font_far("C18", Both, ["name-keyed", "id-keyed"],
        "fonts of both kinds with symbolic contents after 0, 300, and 70000 other bytes, with gaps of 0, 300, and 70000 bytes between parts, in 2 orders of parts")
    {
        let b = bytes::<14>();
        assume((b[9] >= 32) & (b[9] <= 246));
        let mut font = name_keyed(&b, true, 3);
        font.privates[0].gap = [0, 70_000][choose(2)];
        if choose(2) == 1 {
            font.cid = Some((vec![b[0] as i32, b[1] as i32, 1], vec![0, b[2], b[3], b[4]]));
            let mut other = font.privates[0].clone();
            other.local = Some(vec![vec![b[5]]]);
            font.privates.push(other);
        }
        let mut plan = plan(vec![font], &bytes::<5>());
        plan.gap = [0, 300, 70_000][choose(3)];
        run(&plan, &vec![0xee; [0, 300, 70_000][choose(3)]]);
    }

    fn h_font_large("C18", Both, ["name-keyed"],
        "a font of 1, 255, 256, 257, 1100, and 5000 glyphs, a private dictionary of 0, 84, 85, 86, and 30000 further entries, 0, 255, 256, and 1300 local subroutines, with a character set, strings, and global subroutines, the first and the last of which are symbolic")
    {
        let b = bytes::<14>();
        assume((b[9] >= 32) & (b[9] <= 246));
        let (glyphs, others, local) = match choose(3) {
            0 => ([1, 255, 256, 257, 1100, 5000][choose(6)], 1, 1),
            1 => (2, [0, 84, 85, 86, 30_000][choose(5)], 3),
            _ => (2, 0, [0, 255, 256, 1300][choose(4)]),
        };
        let many = |n: usize, first: u8, last: u8| -> Vec<Vec<u8>> {
            (0..n)
                .map(|i| if i == 0 { vec![first] } else if i + 1 == n { vec![last; 3] } else { vec![i as u8; i % 3] })
                .collect()
        };
        let mut charset = vec![0];
        for i in 1..glyphs {
            charset.extend_from_slice(&[b[0], b[1] ^ i as u8]);
        }
        let font = Font {
            glyphs: many(glyphs, b[2], b[3]),
            charset: Some(charset),
            encoding: Some(vec![0, 2, b[4], b[5]]),
            privates: vec![Private { width: b[9], others, local: Some(many(local, b[6], b[7])), ..Default::default() }],
            ..Default::default()
        };
        let mut plan = plan(vec![font], &bytes::<5>());
        plan.reverse = false;
        plan.gap = 0;
        plan.strings = many(local, b[8], b[10]);
        plan.global = many(local, b[11], b[12]);
        run(&plan, &[]);
    }

    fn h_font_shared("C18", Both, ["name-keyed"],
        "2 to 3 fonts that have all of their parts in common, and a font whose local subroutines are inside of its private dictionary")
    {
        let b = bytes::<14>();
        assume((b[9] >= 32) & (b[9] <= 246));
        let mut font = name_keyed(&b, true, 3);
        if choose(2) == 0 {
            let mut plan = plan(vec![font; 2 + choose(2)], &bytes::<5>());
            plan.shared = true;
            run(&plan, &[0; 5]);
        } else {
            // they make operators without operands too
            font.privates[0].local = Some(vec![vec![13], vec![]][..1 + choose(2)].to_vec());
            font.privates[0].around = true;
            run(&plan(vec![font], &bytes::<5>()), &[0; 5]);
        }
    }

    fn h_font_predefined("C18", Both, ["predefined"],
        "all predefined character sets and encodings, given explicitly in any of 5 forms of integers")
    {
        let set = choose(3);
        let encoding = choose(2);
        let form = choose(3);
        let push = |b: &mut Vec<u8>, value: usize| match form {
            0 => b.push(139 + value as u8),
            1 => b.extend_from_slice(&[28, 0, value as u8]),
            _ => b.extend_from_slice(&[29, 0, 0, 0, value as u8]),
        };
        let mut tail = vec![];
        push(&mut tail, set);
        tail.push(15);
        push(&mut tail, encoding);
        tail.push(16);
        let size = 6 + 11 + tail.len();
        // header, names, dictionaries, strings, subroutines
        let glyphs = 4 + 6 + (5 + size) + 2 + 2;
        let mut top = vec![];
        entry(&mut top, &[glyphs as i32], 17);
        entry(&mut top, &[2, glyphs as i32 + 6], 18);
        top.extend_from_slice(&tail);
        let mut b = vec![1, 0, 4, 1];
        index(&mut b, &[&[65]]);
        index(&mut b, &[&top]);
        index(&mut b, &[]);
        index(&mut b, &[]);
        index(&mut b, &[&[14]]);
        b.extend_from_slice(&[byte(), 20]);
        let width = b[b.len() - 2];
        assume((width >= 32) & (width <= 246));
        match Cursor::new(&b[..]).take::<FontSet>() {
            Ok(font) => {
                reach!("predefined");
                let fine = match (set, &font.character_sets[0]) {
                    (0, CharacterSet::ISOAdobe) => true,
                    (1, CharacterSet::Expert) => true,
                    (2, CharacterSet::ExpertSubset) => true,
                    _ => false,
                };
                check!(fine, "C18 character-set offsets 0 to 2 stand for predefined ones");
                let fine = match (encoding, &font.encodings[0]) {
                    (0, Encoding::Standard) => true,
                    (1, Encoding::Expert) => true,
                    _ => false,
                };
                check!(fine, "C18 encoding offsets 0 and 1 stand for predefined ones");
            }
            _ => check!(false, "C18 well-formed font sets are accepted"),
        }
    }

    fn h_font_type("C18", Both, ["rejected", "accepted"],
        "all 32-bit types of character strings; a top dictionary without character strings")
    {
        let kind = u32() as i32;
        let mut top = vec![];
        let missing = choose(2) == 1;
        entry(&mut top, &[if missing { 2 } else { kind }], 0xc06);
        let size = 7 + 11 + if missing { 0 } else { 6 };
        let glyphs = 4 + 6 + (5 + size) + 2 + 2;
        entry(&mut top, &[2, glyphs as i32 + 6], 18);
        if !missing {
            entry(&mut top, &[glyphs as i32], 17);
        }
        let mut b = vec![1, 0, 4, 1];
        index(&mut b, &[&[65]]);
        index(&mut b, &[&top]);
        index(&mut b, &[]);
        index(&mut b, &[]);
        index(&mut b, &[&[14]]);
        b.extend_from_slice(&[139, 20]);
        match Cursor::new(&b[..]).take::<FontSet>() {
            Ok(_) => {
                reach!("accepted");
                check!(!missing & (kind == 2), "C18 a font without type-2 character strings is rejected");
            }
            _ => {
                reach!("rejected");
                check!(missing | (kind != 2), "C18 well-formed font sets are accepted");
            }
        }
    }

    fn h_font_id_keyed("C19", Both, ["id-keyed"],
        "character-ID-keyed fonts of 2 glyphs and 1 to 2 font dictionaries with symbolic contents, with and without local subroutines, after 0, 1, and 9 other symbolic bytes, with selectors of both formats")
    {
        let b = bytes::<16>();
        let ros = vec![
            ((b[0] as i32) << 8) | b[1] as i32,
            ((b[2] as i32) << 8) | b[3] as i32,
            u32() as i32,
        ];
        let selector = if choose(2) == 0 { vec![0, b[4], b[5]] } else { vec![3, 0, 1, 0, 0, b[4], b[5], b[6]] };
        let mut privates = vec![];
        for i in 0..1 + choose(2) {
            assume((b[7 + i] >= 32) & (b[7 + i] <= 246));
            let local = match choose(3) {
                0 => None,
                1 => Some(vec![]),
                _ => Some(vec![vec![b[9 + i]], vec![b[11 + i], b[13 + i]]]),
            };
            privates.push(Private { width: b[7 + i], local, gap: i, ..Default::default() });
        }
        let font = Font {
            glyphs: vec![vec![b[15]], vec![14]],
            privates,
            cid: Some((ros, selector)),
            ..Default::default()
        };
        let before = bytes::<9>();
        let plan = Plan {
            padding: choose(2),
            gap: 1,
            reverse: false,
            major: 1,
            offset_size: 1,
            name: vec![65],
            strings: vec![],
            global: vec![],
            fonts: vec![font],
            alter: None,
            shared: false,
        };
        run(&plan, prefix(&before));
    }

    fn h_font_id_many("C19", Both, ["id-keyed"],
        "character-ID-keyed fonts of 3 to 40, 255, 256, and 257 font dictionaries and up to 1100 glyphs with selectors of both formats; the first and last font dictionaries are symbolic")
    {
        let b = bytes::<8>();
        let count = match choose(42) {
            k if k < 38 => 3 + k,
            k => [255, 256, 257, 300][k - 38],
        };
        let glyphs = [2, 256, 257, 1100][choose(4)];
        assume((b[0] >= 32) & (b[0] <= 246) & (b[1] >= 32) & (b[1] <= 246));
        let privates = (0..count)
            .map(|i| Private {
                width: if i == 0 { b[0] } else if i + 1 == count { b[1] } else { 32 + (i % 200) as u8 },
                local: if i % 7 == 0 || i + 1 == count { Some(vec![vec![b[2], i as u8]]) } else { None },
                ..Default::default()
            })
            .collect();
        let selector = if choose(2) == 0 {
            let mut selector = vec![0];
            for i in 0..glyphs {
                selector.push(b[3] ^ i as u8);
            }
            selector
        } else {
            vec![3, 0, 1, 0, 0, b[4], b[5], b[6]]
        };
        let font = Font {
            glyphs: vec![vec![14]; glyphs],
            privates,
            cid: Some((vec![b[7] as i32, 1, 0], selector)),
            ..Default::default()
        };
        let plan = Plan {
            padding: 0,
            gap: 0,
            reverse: false,
            major: 1,
            offset_size: 1,
            name: vec![65],
            strings: vec![],
            global: vec![],
            fonts: vec![font],
            alter: None,
            shared: false,
        };
        run(&plan, &[]);
    }

    fn h_font_id_several("C19", Both, ["id-keyed"],
        "sets of 2 character-ID-keyed fonts, each with its own 1 to 2 font dictionaries, selectors in format 0 or in format 3 of 1 to 3 ranges, unique identifiers, and with or without a private dictionary of the font as a whole, all with symbolic contents")
    {
        let fonts = (0..2)
            .map(|_| {
                let selector = match choose(4) {
                    0 => [&[0][..], &bytes::<3>()].concat(),
                    count => {
                        let mut b = vec![3, 0, count as u8];
                        for _ in 0..count {
                            b.extend_from_slice(&bytes::<3>());
                        }
                        b.extend_from_slice(&bytes::<2>());
                        b
                    }
                };
                let privates = (0..1 + choose(2))
                    .map(|i| Private {
                        width: between(32, 246),
                        local: if i == 0 { Some(vec![vec![byte()], vec![], vec![byte()]]) } else { None },
                        gap: i,
                        ..Default::default()
                    })
                    .collect();
                Font {
                    glyphs: vec![vec![byte()], vec![], vec![14]],
                    privates,
                    cid: Some((vec![byte() as i32, byte() as i32, byte() as i32], selector)),
                    unique: Some(between(32, 246)),
                    both: choose(2) == 1,
                    ..Default::default()
                }
            })
            .collect();
        let b = bytes::<5>();
        let plan = Plan {
            major: b[0],
            offset_size: b[1],
            padding: 0,
            gap: 0,
            reverse: choose(2) == 1,
            name: vec![b[2]],
            strings: vec![vec![b[3]], vec![]],
            global: vec![vec![b[4]]],
            fonts,
            alter: None,
            shared: false,
        };
        run(&plan, &[0; 5]);
    }

    fn h_font_mixed("C19", Both, ["id-keyed", "name-keyed"],
        "a character-ID-keyed font next to a character-name-keyed one in either order, with symbolic contents")
    {
        let b = bytes::<14>();
        let c = bytes::<6>();
        assume((b[9] >= 32) & (b[9] <= 246));
        let one = name_keyed(&b, choose(2) == 1, 1 + choose(3));
        let other = Font {
            glyphs: vec![vec![c[0]], vec![14]],
            privates: vec![Private { width: between(32, 246), local: Some(vec![vec![c[1]]]), ..Default::default() }],
            cid: Some((vec![c[2] as i32, c[3] as i32, 0], vec![0, c[4], c[5]])),
            ..Default::default()
        };
        let fonts = if choose(2) == 0 { vec![one, other] } else { vec![other, one] };
        run(&plan(fonts, &bytes::<5>()), &[]);
    }

    fn h_font_ros("C19", Both, ["accepted", "rejected"],
        "ROS with 0 to 6 operands of any 32-bit values, with or without a private dictionary of the font as a whole")
    {
        let count = choose(7);
        let ros: Vec<i32> = (0..count).map(|_| u32() as i32).collect();
        let mut fine = count == 3;
        for value in ros.iter().take(2) {
            fine &= (*value >= 0) & (*value <= 65535);
        }
        let b = simple_with(true, Some(ros.clone()), None, choose(2) == 1);
        match Cursor::new(&b[..]).take::<FontSet>() {
            Ok(set) => {
                reach!("accepted");
                check!(fine, "C19 malformed ROS operands are rejected");
                match &set.records[0] {
                    Record::CharacterIDKeyed(record) => check!(
                        (record.registry as i32 == ros[0])
                            & (record.ordering as i32 == ros[1])
                            & matches!(record.supplement, Number::Integer(value) if value == ros[2]),
                        "C19 a character-ID-keyed font has its registry, ordering, and supplement in order"
                    ),
                    _ => check!(false, "C19 a font with ROS is character-ID-keyed"),
                }
            }
            _ => {
                reach!("rejected");
                check!(!fine, "C19 well-formed ROS operands are accepted");
            }
        }
    }

    fn h_font_operands("C02", Both, ["accepted", "rejected"],
        "fonts of both kinds with 0 to 4 operands, up to 1 of them being any 32-bit integer, to any one operator of any dictionary")
    {
        let id_keyed = choose(2) == 1;
        const OPERATORS: [u16; 19] = [15, 16, 17, 18, 19, 0, 1, 4, 5, 13, 14, 20, 21, 0xc06, 0xc07, 0xc22, 0xc1e, 0xc24, 0xc25];
        let operator = OPERATORS[choose(if id_keyed { 19 } else { 16 })];
        let count = choose(5);
        let value = if choose(2) == 1 { Some(u32() as i32) } else { None };
        let value = value.map(|value| if value >= 0 && value < 192 { split(value as u64) as i32 } else { value });
        let b = simple(id_keyed, None, Some((operator, count, value)));
        match Cursor::new(&b[..]).take::<FontSet>() {
            Ok(set) => {
                reach!("accepted");
                observe(set.records.len() as u64);
            }
            _ => reach!("rejected"),
        }
    }

    fn h_font_arbitrary("C02", Both, ["accepted", "rejected"],
        "a character-name-keyed font with any one of its operands being any 32-bit integer or a real number")
    {
        arbitrary(false, 6);
    }

    fn h_font_arbitrary_id("C02", Both, ["accepted", "rejected"],
        "a character-ID-keyed font with any one of its operands being any 32-bit integer or a real number")
    {
        arbitrary(true, 11);
    }

    fn h_font_truncated("C02", Both, ["accepted", "rejected"],
        "fonts of both kinds cut at any position")
    {
        let b = odd(99, 0, false, choose(2) == 1);
        let n = choose(b.len() + 1);
        match Cursor::new(&b[..n]).take::<FontSet>() {
            Ok(_) => reach!("accepted"),
            _ => reach!("rejected"),
        }
    }

    fn h_font_corrupted("C02", Quick, ["accepted", "rejected"],
        "a character-name-keyed font with any one byte being anything")
    {
        corrupted(false);
    }

    fn h_font_corrupted_more("C02", Thorough, ["accepted", "rejected"],
        "fonts of both kinds with any one byte being anything")
    {
        corrupted(choose(2) == 1);
    }

    fn h_font_private("C02", Both, ["accepted", "rejected"],
        "a private dictionary with any one of its size, its offset, and the offset of its subroutines being any 32-bit integer and the other two being off by -2 to 2")
    {
        let mut b = odd(99, 0, false, false);
        // the size and the offset precede Private; the offset of subroutines precedes Subrs
        let one = (0..b.len() - 10).find(|i| b[*i] == 29 && b[i + 5] == 29 && b[i + 10] == 18).unwrap();
        let other = (0..b.len() - 5).find(|i| b[*i] == 29 && b[i + 5] == 19).unwrap();
        let value = u32() as i32;
        let which = choose(3);
        for (i, k) in [one + 1, one + 6, other + 1].iter().enumerate() {
            let k = *k;
            let value = if i == which {
                if value >= 0 && value < 192 { split(value as u64) as i32 } else { value }
            } else {
                i32::from_be_bytes([b[k], b[k + 1], b[k + 2], b[k + 3]]) + choose(5) as i32 - 2
            };
            b[k..k + 4].copy_from_slice(&value.to_be_bytes());
        }
        match Cursor::new(&b[..]).take::<FontSet>() {
            Ok(_) => reach!("accepted"),
            _ => reach!("rejected"),
        }
    }
}
