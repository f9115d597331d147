//! What has been read, as numbers that can be compared.

use std::io::Error;

use postscript::compact1::font_set::{character_id_keyed, Record};
use postscript::compact1::index::{CharacterStrings, Names};
use postscript::compact1::{
    CharacterSet, Encoding, FontSet, Header, Index, Number, Offset, Operations, Operator,
};

/// The kinds that `take` reads, of which the last two are font sets.
pub const KINDS: usize = 11;

fn header(result: &mut Vec<u64>, value: &Header) {
    result.extend([value.major, value.minor, value.header_size, value.offset_size].map(|byte| byte as u64));
}

fn list<'l>(result: &mut Vec<u64>, data: impl Iterator<Item = &'l Vec<u8>>) {
    for data in data {
        result.push(data.len() as u64);
        result.extend(data.iter().map(|byte| *byte as u64));
    }
}

fn index(result: &mut Vec<u64>, value: &Index) {
    result.extend([value.count as u64, value.offset_size as u64, value.offsets.len() as u64]);
    result.extend(value.offsets.iter().map(|offset| offset.0 as u64));
    result.push(value.data.len() as u64);
    list(result, value.data.iter());
}

fn number(result: &mut Vec<u64>, value: &Number) {
    match value {
        Number::Integer(value) => result.extend([0, *value as u32 as u64]),
        Number::Real(value) => result.extend([1, value.to_bits() as u64]),
    }
}

fn operations(result: &mut Vec<u64>, value: &Operations) {
    result.push(value.0.len() as u64);
    // in an order of their own
    for code in (0..0x16).chain(0xc00..0xc27) {
        if let Ok(operator) = Operator::from(code) {
            if let Some(operands) = value.0.get(&operator) {
                result.push(code as u64);
                result.push(operands.len() as u64);
                for operand in operands {
                    number(result, operand);
                }
            }
        }
    }
}

fn encoding(result: &mut Vec<u64>, value: &Encoding) {
    match value {
        Encoding::Standard => result.push(1),
        Encoding::Expert => result.push(2),
        Encoding::Format0(value) => {
            result.extend([3, value.format as u64, value.code_count as u64]);
            list(result, [value.codes.clone()].iter());
        }
        Encoding::Format1(value) => {
            result.extend([4, value.format as u64, value.range_count as u64, value.ranges.len() as u64]);
            for range in &value.ranges {
                result.extend([range.first_code as u64, range.left_count as u64]);
            }
        }
        Encoding::FormatSupplemental(value) => {
            result.extend([5, value.format as u64, value.supplement_count as u64, value.supplements.len() as u64]);
            for supplement in &value.supplements {
                result.extend([supplement.code as u64, supplement.glyph as u64]);
            }
        }
    }
}

fn character_set(result: &mut Vec<u64>, value: &CharacterSet) {
    match value {
        CharacterSet::ISOAdobe => result.push(1),
        CharacterSet::Expert => result.push(2),
        CharacterSet::ExpertSubset => result.push(3),
        CharacterSet::Format0(value) => {
            result.extend([4, value.format as u64, value.glyphs.len() as u64]);
            result.extend(value.glyphs.iter().map(|glyph| *glyph as u64));
        }
        CharacterSet::Format1(value) => {
            result.extend([5, value.format as u64, value.ranges.len() as u64]);
            for range in &value.ranges {
                result.extend([range.first_string_id as u64, range.left_count as u64]);
            }
        }
        CharacterSet::Format2(value) => {
            result.extend([6, value.format as u64, value.ranges.len() as u64]);
            for range in &value.ranges {
                result.extend([range.first_string_id as u64, range.left_count as u64]);
            }
        }
    }
}

fn selector(result: &mut Vec<u64>, value: &character_id_keyed::Encoding) {
    match value {
        character_id_keyed::Encoding::Format0(value) => {
            result.extend([1, value.format as u64]);
            list(result, [value.dictionary_ids.clone()].iter());
        }
        character_id_keyed::Encoding::Format3(value) => {
            result.extend([2, value.format as u64, value.range_count as u64, value.ranges.len() as u64]);
            for range in &value.ranges {
                result.extend([range.first_glyph_id as u64, range.dictionary_id as u64]);
            }
            result.push(value.glyph_count as u64);
        }
    }
}

/// List everything that a font set has.
pub fn font_set(result: &mut Vec<u64>, value: &FontSet) {
    header(result, &value.header);
    index(result, &value.names);
    result.push(value.operations.len() as u64);
    for value in &value.operations {
        operations(result, value);
    }
    index(result, &value.strings);
    index(result, &value.subroutines);
    result.push(value.encodings.len() as u64);
    for value in &value.encodings {
        encoding(result, value);
    }
    result.push(value.character_strings.len() as u64);
    for value in &value.character_strings {
        index(result, value);
    }
    result.push(value.character_sets.len() as u64);
    for value in &value.character_sets {
        character_set(result, value);
    }
    result.push(value.records.len() as u64);
    for record in &value.records {
        match record {
            Record::CharacterNameKeyed(record) => {
                result.push(1);
                operations(result, &record.operations);
                index(result, &record.subroutines);
            }
            Record::CharacterIDKeyed(record) => {
                result.extend([2, record.registry as u64, record.ordering as u64]);
                number(result, &record.supplement);
                selector(result, &record.encoding);
                result.push(record.operations.len() as u64);
                for value in &record.operations {
                    operations(result, value);
                }
                result.push(record.records.len() as u64);
                for record in &record.records {
                    operations(result, &record.operations);
                    index(result, &record.subroutines);
                }
            }
        }
    }
}

/// Read something of a certain kind and list what it has and where it ended up relative to where it started.
pub fn take<T: postscript::tape::Read>(tape: &mut T, kind: usize) -> Result<Vec<u64>, Error> {
    let start = tape.position()?;
    let mut result = vec![];
    match kind {
        0 => header(&mut result, &tape.take()?),
        1 => index(&mut result, &tape.take()?),
        2 => number(&mut result, &tape.take()?),
        3 => operations(&mut result, &tape.take()?),
        4 => {
            let value: Offset = tape.take_given(3)?;
            result.push(value.0 as u64);
        }
        5 => encoding(&mut result, &tape.take()?),
        6 => character_set(&mut result, &tape.take_given(3)?),
        7 => {
            let strings = CharacterStrings(Index { count: 2, offset_size: 1, offsets: vec![], data: vec![] });
            selector(&mut result, &tape.take_given(&strings)?);
        }
        8 => {
            let value: Names = tape.take()?;
            index(&mut result, &value.0);
        }
        11 => result.push(FontSet::count(tape)? as u64),
        _ => font_set(&mut result, &tape.take()?),
    }
    // font sets need not be read to the end
    if kind < 9 {
        result.push(tape.position()? - start);
    }
    Ok(result)
}

pub fn equal(one: &[u64], other: &[u64]) -> bool {
    if one.len() != other.len() {
        return false;
    }
    let mut result = true;
    for (one, other) in one.iter().zip(other) {
        result &= one == other;
    }
    result
}
