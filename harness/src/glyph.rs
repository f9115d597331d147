//! Glyphs of font sets.

use std::io::Cursor;

use postscript::compact1::font_set::{character_id_keyed, Record};
use postscript::compact1::FontSet;
use postscript::type2::Operator;

use crate::font::{write, Font, Plan, Private};
use crate::program::run;
use crate::sx::{between, byte, choose, observe};
use crate::util::*;
use crate::{check, harnesses, reach};

/// A number of a character string.
fn push(code: &mut Vec<u8>, value: i32) {
    code.push(28);
    code.extend_from_slice(&(value as i16).to_be_bytes());
}

fn bias(count: usize) -> i32 {
    match count {
        0..=1239 => 107,
        1240..=33899 => 1131,
        _ => 32768,
    }
}

/// Subroutines, the first and last of which are of their own operations with symbolic operands, and others of which are empty.
fn routines(count: usize, code: u8) -> Vec<Vec<u8>> {
    let (one, other) = (between(32, 246), between(32, 246));
    (0..count)
        .map(|i| if i == 0 { vec![one, code, 11] } else if i + 1 == count { vec![other, code, 11] } else if i % 3 == 1 { vec![] } else { vec![32 + (i % 200) as u8, code, 11] })
        .collect()
}

/// A glyph that calls a local subroutine and a global one and has an operation of its own.
fn glyph(own: u8, local: Option<(usize, usize)>, global: (usize, usize)) -> Vec<u8> {
    let mut code = vec![];
    if let Some((i, count)) = local {
        push(&mut code, i as i32 - bias(count));
        code.push(10);
    }
    push(&mut code, global.0 as i32 - bias(global.1));
    code.extend_from_slice(&[29, own, own, 5, 14]);
    code
}

/// A font and what each of its glyphs draws in terms of its own operand and the dictionary and the subroutines it calls.
fn font(dictionaries: usize, id_keyed: bool, sizes: &[usize], global: usize) -> (Font, Vec<(u8, usize, usize, usize)>) {
    let privates: Vec<Private> = (0..dictionaries)
        .map(|i| Private { width: 139, local: Some(routines(sizes[i % sizes.len()], 22)), gap: i, ..Default::default() })
        .collect();
    let (mut glyphs, mut drawn) = (vec![], vec![]);
    let mut selector = vec![];
    // in another order than that of the dictionaries, and each of them is selected
    for i in 0..2 * dictionaries + 1 {
        let k = (2 * dictionaries - i) % dictionaries;
        let own = between(32, 246);
        let count = privates[k].local.as_ref().unwrap().len();
        let (one, other) = (if i % 2 == 0 { 0 } else { count - 1 }, if i % 2 == 0 { global - 1 } else { 0 });
        glyphs.push(glyph(own, Some((one, count)), (other, global)));
        drawn.push((own, k, one, other));
        selector.push(k as u8);
        if i == 1 {
            // an empty one
            glyphs.push(vec![]);
            drawn.push((0, k, one, other));
            selector.push(k as u8);
        }
    }
    let cid = if !id_keyed {
        None
    } else if choose(2) == 0 {
        Some((vec![1, 2, 3], [&[0], &selector[..]].concat()))
    } else {
        let n = selector.len();
        let mut b = vec![3, 0, n as u8];
        for i in 0..n {
            b.extend_from_slice(&[0, i as u8, selector[i]]);
        }
        b.extend_from_slice(&[0, n as u8]);
        Some((vec![1, 2, 3], b))
    };
    (Font { glyphs, privates, cid, ..Default::default() }, drawn)
}

/// The dictionary assigned to a glyph.
fn select(encoding: &character_id_keyed::Encoding, glyph: usize) -> usize {
    match encoding {
        character_id_keyed::Encoding::Format0(encoding) => {
            crate::sx::split(encoding.dictionary_ids[glyph] as u64) as usize
        }
        character_id_keyed::Encoding::Format3(encoding) => {
            let range = encoding.ranges.iter().rev().find(|range| range.first_glyph_id as usize <= glyph);
            range.map_or(0, |range| range.dictionary_id as usize)
        }
    }
}

fn draw(fonts: Vec<(Font, Vec<(u8, usize, usize, usize)>)>, global: Vec<Vec<u8>>, position: usize) {
    let (fonts, drawn): (Vec<_>, Vec<_>) = fonts.into_iter().unzip();
    let plan = Plan {
        major: 1,
        offset_size: 2,
        padding: 0,
        gap: 1,
        reverse: choose(2) == 1,
        name: vec![65],
        strings: vec![],
        global,
        fonts,
        alter: None,
        shared: false,
    };
    let mut b = vec![0; position];
    b.extend_from_slice(&write(&plan));
    let mut tape = Cursor::new(&b[..]);
    tape.set_position(position as u64);
    let set = match tape.take::<FontSet>() {
        Ok(set) => set,
        _ => {
            check!(false, "C32 well-formed font sets are accepted");
            return;
        }
    };
    check!(set.records.len() == drawn.len(), "C32 a font set has all of its fonts");
    for (i, drawn) in drawn.iter().enumerate() {
        check!(set.character_strings[i].len() == drawn.len(), "C32 a font has all of its glyphs");
        for (j, (own, dictionary, one, other)) in drawn.iter().enumerate() {
            let local = match &set.records[i] {
                Record::CharacterNameKeyed(record) => &record.subroutines,
                Record::CharacterIDKeyed(record) => {
                    reach!("id-keyed");
                    let k = select(&record.encoding, j);
                    check!(k == *dictionary, "C32 a glyph has the dictionary that is assigned to it");
                    &record.records[k].subroutines
                }
            };
            let outcome = run(&set.character_strings[i][j], &set.subroutines, local, 10);
            let value = |byte: u8| byte as f32 - 139.0;
            let local = &plan.fonts[i].privates[*dictionary].local.as_ref().unwrap()[*one];
            let global = &plan.global[*other];
            if *own == 0 {
                check!(
                    !outcome.failed && outcome.operations.is_empty(),
                    "C32 a glyph draws what its program and its subroutines say"
                );
                continue;
            }
            check!(
                !outcome.failed && outcome.operations.len() == 3,
                "C32 a glyph draws what its program and its subroutines say"
            );
            if outcome.operations.len() != 3 {
                return;
            }
            reach!("drawn");
            for (k, (operator, operands)) in [
                (Operator::HMoveTo, vec![value(local[0])]),
                (Operator::VMoveTo, vec![value(global[0])]),
                (Operator::RLineTo, vec![value(*own), value(*own)]),
            ]
            .iter()
            .enumerate()
            {
                let found = &outcome.operations[k];
                let mut fine = found.0 == *operator && found.1.len() == operands.len();
                for (one, other) in found.1.iter().zip(operands) {
                    observe(one.to_bits() as u64);
                    fine &= one == other;
                }
                check!(fine, "C32 a glyph draws what its program and its subroutines say");
            }
            check!(outcome.width.is_none(), "C32 a glyph draws what its program and its subroutines say");
        }
    }
}

fn draw_any(fonts: usize) {
    let count = [1, 3][choose(2)];
    let global = routines(count, 4);
    let fonts = (0..fonts)
        .map(|i| if choose(2) == 0 { font(1, false, &[1 + 2 * (i % 2)], count) } else { font(1 + choose(3), true, &[3, 1], count) })
        .collect();
    draw(fonts, global, [0, 5][choose(2)]);
}

harnesses! {
    fn h_glyph("C32", Both, ["drawn", "id-keyed"],
        "sets of 1 to 2 fonts of either kind, with 1 to 3 font dictionaries, 4 to 8 glyphs, one of them empty, and 1 or 3 local and global subroutines, some of them empty, all with symbolic operands, selectors of both formats, 2 orders of parts, after 0 or 5 other bytes")
    {
        draw_any(1 + choose(2));
    }

    fn h_glyph_three("C32", Thorough, ["drawn", "id-keyed"],
        "as h_glyph with 3 fonts")
    {
        draw_any(3);
    }

    fn h_glyph_many("C32", Both, ["drawn", "id-keyed"],
        "fonts of either kind with 1, 255, 256, 1239, 1240, 1241, and 3000 local or global subroutines, the first and last of which have symbolic operands and are called")
    {
        let sizes = [1, 255, 256, 1239, 1240, 1241, 3000];
        let size = sizes[choose(sizes.len())];
        let (local, global) = if choose(2) == 0 { (size, 1) } else { (2, size) };
        let fonts = vec![if choose(2) == 0 { font(1, false, &[local], global) } else { font(2, true, &[local, 3], global) }];
        let global = routines(global, 4);
        draw(fonts, global, 0);
    }

    fn h_glyph_bytes("C32", Both, ["drawn"],
        "glyphs of 1 to 3 arbitrary bytes, read out of a font and executed, against executing the bytes alone")
    {
        let n = 1 + choose(3);
        let code: Vec<u8> = (0..n).map(|_| byte()).collect();
        let local = vec![vec![140, 22, 11]];
        let global = vec![vec![141, 4, 11], vec![11]];
        let plan = Plan {
            major: 1,
            offset_size: 2,
            padding: 0,
            gap: 0,
            reverse: false,
            name: vec![65],
            strings: vec![],
            global: global.clone(),
            fonts: vec![Font {
                glyphs: vec![vec![14], code.clone(), vec![14]],
                privates: vec![Private { width: 139, local: Some(local.clone()), ..Default::default() }],
                ..Default::default()
            }],
            alter: None,
            shared: false,
        };
        let b = write(&plan);
        let set = match Cursor::new(&b[..]).take::<FontSet>() {
            Ok(set) => set,
            _ => {
                check!(false, "C32 well-formed font sets are accepted");
                return;
            }
        };
        let found = match &set.records[0] {
            Record::CharacterNameKeyed(record) => run(&set.character_strings[0][1], &set.subroutines, &record.subroutines, 10),
            _ => {
                check!(false, "C32 well-formed font sets are accepted");
                return;
            }
        };
        let expected = run(&code, &global, &local, 10);
        reach!("drawn");
        observe(found.operations.len() as u64);
        check!(crate::program::matching(&found, &expected), "C32 a glyph draws what its program and its subroutines say");
    }
}
