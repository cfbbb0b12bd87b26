//! The Compact Font Format: observations of values and runs of readers.

use crate::charstring::float;
use crate::json::{ints, o, s, J};
use crate::tape::{Tape, WAYS};
use postscript::compact1::character_set::{CharacterSet0, CharacterSet1, CharacterSet2};
use postscript::compact1::font_set::{character_id_keyed, Record};
use postscript::compact1::index::{
    CharacterStrings, Dictionaries, Index, Names, Strings, Subroutines,
};
use postscript::compact1::{
    CharacterSet, Encoding, FontSet, Header, Number, Offset, Operations, Operator, StringID,
};
use postscript::tape::Read;
use postscript::Result;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn n<T: Into<i64>>(value: T) -> J {
    J::I(value.into())
}

fn a(values: Vec<J>) -> J {
    J::A(values)
}

fn list<T>(values: &[T], f: impl Fn(&T) -> J) -> J {
    J::A(values.iter().map(f).collect())
}

fn option(value: Option<J>) -> J {
    J::A(value.into_iter().collect())
}

pub fn header(value: &Header) -> J {
    ints(&[value.major, value.minor, value.header_size, value.offset_size])
}

pub fn index(value: &Index) -> J {
    a(vec![
        n(value.count),
        n(value.offset_size),
        list(&value.offsets, |offset| n(offset.0)),
        list(&value.data, |chunk| ints(chunk)),
    ])
}

fn offset(value: &Offset) -> J {
    a(vec![n(value.0 >> 16), n(value.0 & 0xffff)])
}

pub fn number(value: &Number) -> J {
    match value {
        Number::Integer(value) => a(vec![s("i"), n(*value)]),
        Number::Real(value) => {
            let mut parts = vec![s("r")];
            parts.extend_from_slice(float(*value).arr());
            a(parts)
        }
    }
}

fn numbers(values: &[Number]) -> J {
    list(values, number)
}

pub fn dictionary(value: &Operations) -> J {
    let mut pairs = value
        .0
        .iter()
        .map(|(operator, operands)| (format!("{operator:?}"), numbers(operands)))
        .collect::<Vec<_>>();
    pairs.sort_by(|one, other| one.0.cmp(&other.0));
    a(pairs.into_iter().map(|(name, operands)| a(vec![s(&name), operands])).collect())
}

fn charset(value: &CharacterSet) -> J {
    match value {
        CharacterSet::ISOAdobe => a(vec![s("ISOAdobe")]),
        CharacterSet::Expert => a(vec![s("Expert")]),
        CharacterSet::ExpertSubset => a(vec![s("ExpertSubset")]),
        CharacterSet::Format0(value) => {
            a(vec![s("Format0"), ints(&value.glyphs), n(value.format)])
        },
        CharacterSet::Format1(value) => a(vec![
            s("Format1"),
            list(&value.ranges, |range| a(vec![n(range.first_string_id), n(range.left_count)])),
            n(value.format),
        ]),
        CharacterSet::Format2(value) => a(vec![
            s("Format2"),
            list(&value.ranges, |range| a(vec![n(range.first_string_id), n(range.left_count)])),
            n(value.format),
        ]),
    }
}

fn encoding(value: &Encoding) -> J {
    match value {
        Encoding::Standard => a(vec![s("Standard")]),
        Encoding::Expert => a(vec![s("Expert")]),
        Encoding::Format0(value) => {
            a(vec![s("Format0"), n(value.format), ints(&value.codes), n(value.code_count)])
        },
        Encoding::Format1(value) => a(vec![
            s("Format1"),
            n(value.format),
            list(&value.ranges, |range| ints(&[range.first_code, range.left_count])),
            n(value.range_count),
        ]),
        Encoding::FormatSupplemental(value) => a(vec![
            s("Supplemental"),
            n(value.format),
            ints(&value.codes),
            list(&value.ranges, |range| ints(&[range.first_code, range.left_count])),
            list(&value.supplements, |extra| a(vec![n(extra.code), n(extra.glyph)])),
            n(value.count),
            n(value.supplement_count),
        ]),
    }
}

fn select(value: &character_id_keyed::Encoding) -> J {
    match value {
        character_id_keyed::Encoding::Format0(value) => {
            a(vec![s("Format0"), n(value.format), ints(&value.dictionary_ids)])
        }
        character_id_keyed::Encoding::Format3(value) => a(vec![
            s("Format3"),
            n(value.format),
            list(&value.ranges, |range| a(vec![n(range.first_glyph_id), n(range.dictionary_id)])),
            n(value.glyph_count),
            n(value.range_count),
        ]),
    }
}

fn font_set(value: &FontSet) -> J {
    let record = |record: &Record| match record {
        Record::CharacterIDKeyed(value) => a(vec![
            s("cid"),
            a(vec![n(value.registry), n(value.ordering), number(&value.supplement)]),
            select(&value.encoding),
            list(&value.operations, dictionary),
            list(&value.records, |record| {
                a(vec![dictionary(&record.operations), index(&record.subroutines)])
            }),
        ]),
        Record::CharacterNameKeyed(value) => {
            a(vec![s("name"), dictionary(&value.operations), index(&value.subroutines)])
        }
    };
    o().put("header", header(&value.header))
        .put("names", index(&value.names))
        .put("dictionaries", list(&value.operations, dictionary))
        .put("strings", index(&value.strings))
        .put("subroutines", index(&value.subroutines))
        .put("charstrings", list(&value.character_strings, |value| index(value)))
        .put("charsets", list(&value.character_sets, charset))
        .put("encodings", list(&value.encodings, encoding))
        .put("records", list(&value.records, record))
}

/// Operators by their codes, the two-byte ones from 3072.
pub fn operators() -> Vec<Operator> {
    (0..256)
        .filter(|code| *code != 12)
        .chain(0x0c00..0x0d00)
        .filter_map(|code| Operator::from(code).ok())
        .collect()
}

fn outcome(result: Result<J>) -> J {
    match result {
        Ok(value) => o().put("k", s("ok")).put("v", value),
        Err(error) => {
            let (injected, kind) = crate::tape::recognized(&error);
            o().put("k", s("err"))
                .put("inj", n(injected))
                .put("ek", n(kind))
        }
    }
}

/// Read a part of a kind; the parameter is the one the reader takes, if any.
fn read(kind: &str, parameter: i64, case: &J, tape: &mut Tape) -> Result<J> {
    macro_rules! take(($type:ty, $show:expr) => ({
        let value: $type = tape.take()?;
        Ok($show(&value))
    }));
    match kind {
        "header" => take!(Header, header),
        "index" => take!(Index, index),
        "names" => take!(Names, |value: &Names| index(value)),
        "strings" => take!(Strings, |value: &Strings| index(value)),
        "subroutines" => take!(Subroutines, |value: &Subroutines| index(value)),
        "dictindex" => take!(Dictionaries, |value: &Dictionaries| index(value)),
        "number" => take!(Number, number),
        "operations" => take!(Operations, dictionary),
        "encoding" => take!(Encoding, encoding),
        "offset" => {
            let value: Offset = tape.take_given(parameter as u8)?;
            Ok(offset(&value))
        }
        "charstrings" => {
            let value: CharacterStrings = tape.take_given(parameter as i32)?;
            Ok(index(&value))
        }
        "charset" => {
            let value: CharacterSet = tape.take_given(parameter as usize)?;
            Ok(charset(&value))
        }
        // The formats of the tables by themselves.
        "charset0" => {
            let value: CharacterSet0 = tape.take_given(parameter as usize)?;
            Ok(charset(&CharacterSet::Format0(value)))
        }
        "charset1" => {
            let value: CharacterSet1 = tape.take_given(parameter as usize)?;
            Ok(charset(&CharacterSet::Format1(value)))
        }
        "charset2" => {
            let value: CharacterSet2 = tape.take_given(parameter as usize)?;
            Ok(charset(&CharacterSet::Format2(value)))
        }
        "encoding0" => Ok(encoding(&Encoding::Format0(tape.take()?))),
        "encoding1" => Ok(encoding(&Encoding::Format1(tape.take()?))),
        "encodings" => Ok(encoding(&Encoding::FormatSupplemental(tape.take()?))),
        "select3" => Ok(select(&character_id_keyed::Encoding::Format3(tape.take()?))),
        "select" | "select0" => {
            // An index of as many empty objects.
            let mut data = vec![(parameter >> 8) as u8, parameter as u8];
            if parameter > 0 {
                data.resize(3 + parameter as usize + 1, 1);
            }
            let glyphs: CharacterStrings = Tape::new(data).take_given(2)?;
            if kind == "select0" {
                let value: character_id_keyed::Encoding0 = tape.take_given(&glyphs)?;
                return Ok(select(&character_id_keyed::Encoding::Format0(value)));
            }
            let value: character_id_keyed::Encoding = tape.take_given(&glyphs)?;
            Ok(select(&value))
        }
        // An index of dictionaries: each of them, and all of them.
        "dicts" => {
            let value: Dictionaries = tape.take()?;
            let all: Result<Vec<Operations>> = (&value).try_into();
            Ok(a(vec![
                a((0..value.len())
                    .map(|i| outcome(value.get(i).map(|value| dictionary(&value))))
                    .collect()),
                outcome(all.map(|values| list(&values, dictionary))),
            ]))
        }
        // A dictionary asked for every operator.
        "gets" => {
            let value: Operations = tape.take()?;
            Ok(list(&operators(), |operator| {
                a(vec![
                    s(&format!("{operator:?}")),
                    option(value.get(*operator).map(numbers)),
                    option(value.get_single(*operator).map(|one| numbers(&[one]))),
                    option(value.get_double(*operator).map(|(one, two)| numbers(&[one, two]))),
                ])
            }))
        }
        "namelist" => {
            let value: Names = tape.take()?;
            let value: Vec<String> = value.try_into()?;
            Ok(list(&value, |value| ints(value.as_bytes())))
        }
        "lookups" => {
            let value: Strings = tape.take()?;
            // The standard strings as they are, the font's own ones as bytes.
            let show = |sid: i64, value: String| {
                if sid < 391 {
                    s(&value)
                } else {
                    ints(value.as_bytes())
                }
            };
            Ok(list(case.at("sids").arr(), |sid| {
                a(vec![
                    sid.clone(),
                    option(value.get(sid.int() as StringID).map(|value| show(sid.int(), value))),
                ])
            }))
        }
        // How many identifiers have a string, and the last one that does.
        "lookupsum" => {
            let value: Strings = tape.take()?;
            let hits = (0..=65535).filter(|sid| value.get(*sid).is_some()).collect::<Vec<u16>>();
            Ok(a(vec![
                n(hits.len() as i64),
                n(hits.last().copied().map(|sid| sid as i64).unwrap_or(-1)),
            ]))
        }
        "sid" => {
            let value: Number = tape.take()?;
            let sid: StringID = value.try_into()?;
            Ok(n(sid))
        }
        // Lookups in custom tables give nothing or something, but do not crash.
        "encodingget" => {
            let value: Encoding = tape.take()?;
            let _ = (0..=65535).map(|code| value.get(code)).collect::<Vec<_>>();
            Ok(encoding(&value))
        }
        "charsetget" => {
            let value: CharacterSet = tape.take_given(parameter as usize)?;
            let _ = (0..=65535).map(|id| value.get(id)).collect::<Vec<_>>();
            Ok(charset(&value))
        }
        "count" => Ok(n(FontSet::count(tape)? as i64)),
        "font" => take!(FontSet, font_set),
        kind => panic!("unknown kind {kind}"),
    }
}

fn guarded(kind: &str, parameter: i64, case: &J, tape: &mut Tape) -> J {
    match catch_unwind(AssertUnwindSafe(|| read(kind, parameter, case, tape))) {
        Ok(result) => outcome(result),
        Err(_) => o().put("k", s("panic")),
    }
}

/// One part at a position: the outcome and where the tape stands.
pub fn part(case: &J) -> J {
    let mut tape = Tape::of(case);
    let at = case.get("at").map(|at| at.int()).unwrap_or(0);
    tape.rewind(at as u64);
    let parameter = case.get("n").map(|value| value.int()).unwrap_or(0);
    let result = guarded(case.at("kind").str(), parameter, case, &mut tape);
    let mut result = result
        .put("p", n(tape.place().min(1 << 30) as i64))
        .put("ops", n(tape.operations))
        .put("fails", a(tape.failures.iter().take(2).map(|i| n(*i)).collect()));
    if !tape.log.is_empty() {
        result = result.put("log", a(std::mem::take(&mut tape.log)));
    }
    result
}

/// One part under every plan of the case, and, if it is to be swept, with every operation of the
/// tape failing in turn; what differs from the undisturbed outcome is told by each.
pub fn disturbed(case: &J) -> J {
    let kind = case.at("kind").str();
    let at = case.get("at").map(|at| at.int()).unwrap_or(0) as u64;
    let parameter = case.get("n").map(|value| value.int()).unwrap_or(0);
    let data = case.at("b").bytes();
    let run = |plan: Option<&J>| {
        let mut tape = Tape::planned(data.clone(), plan);
        tape.rewind(at);
        let result = guarded(kind, parameter, case, &mut tape);
        (result, tape)
    };
    let show = |value: Option<&J>| {
        let mut text = String::new();
        if let Some(value) = value {
            value.write(&mut text);
        }
        text
    };
    let (base, tape) = run(None);
    let undisturbed = show(base.get("v"));
    let mut runs = vec![];
    let mut one = |plan: &J, brief: bool| {
        let (result, mut tape) = run(Some(plan));
        let log = std::mem::take(&mut tape.log);
        let same = show(result.get("v")) == undisturbed;
        let mut seen = o();
        if !brief {
            seen = seen.put("log", a(log));
        }
        let int = |key: &str| result.get(key).map(|value| value.int()).unwrap_or(-1);
        runs.push(
            seen.put("k", result.at("k").clone())
                .put("same", n(same as i64))
                .put("inj", n(int("inj")))
                .put("ek", n(int("ek")))
                .put("p", n(tape.place().min(1 << 30) as i64))
                .put("error", n(plan.get("error").map(|value| value.int()).unwrap_or(0)))
                .put("fails", a(tape.failures.iter().take(9).map(|i| n(*i)).collect())),
        );
        tape.operations
    };
    for plan in case.get("plans").map(|plans| plans.arr()).unwrap_or(&[]) {
        one(&plan.clone().put("log", n(1)), false);
    }
    for plan in case.get("sweeps").map(|plans| plans.arr()).unwrap_or(&[]) {
        let total = one(plan, true);
        let int = |key: &str, default: i64| plan.get(key).map(|value| value.int()).unwrap_or(default);
        let step = int("step", 1).max(1);
        let mut i = int("from", 0);
        while i < total {
            // Errors of as many kinds as told, beginning with some.
            for way in 0..int("ways", 1) {
                let error = (int("salt", 0) + i + way) % WAYS as i64;
                one(&plan.clone().put("fail", n(i)).put("error", n(error)), true);
            }
            i += step;
        }
    }
    let ek = base.get("ek").map(|value| value.int()).unwrap_or(-1);
    o().put("k", base.at("k").clone())
        .put("ek", n(ek))
        .put("p", n(tape.place().min(1 << 30) as i64))
        .put("ops", n(tape.operations))
        .put("runs", a(runs))
}

/// Several parts of one input one after another without moving the tape.
pub fn sequence(case: &J) -> J {
    let mut tape = Tape::of(case);
    tape.rewind(case.get("at").map(|at| at.int()).unwrap_or(0) as u64);
    let mut results = vec![];
    for step in case.at("steps").arr() {
        let step = step.arr();
        let result = guarded(step[0].str(), step[1].int(), case, &mut tape);
        let stop = result.at("k").str() != "ok";
        results.push(result.put("p", n(tape.place().min(1 << 30) as i64)));
        if stop {
            break;
        }
    }
    a(results)
}

/// The predefined tables for a range of arguments.
pub fn table(case: &J) -> J {
    let name = case.at("table").str();
    let (from, to) = (case.at("from").int(), case.at("to").int());
    a((from..=to)
        .map(|i| {
            let result = catch_unwind(AssertUnwindSafe(|| match name {
                "Standard" => option(Encoding::Standard.get(i as u16).map(n)),
                "ExpertEncoding" => option(Encoding::Expert.get(i as u16).map(n)),
                "ISOAdobe" => option(CharacterSet::ISOAdobe.get(i as u16).map(s)),
                "Expert" => option(CharacterSet::Expert.get(i as u16).map(s)),
                "ExpertSubset" => option(CharacterSet::ExpertSubset.get(i as u16).map(s)),
                // Operators by code: the name and the default operands.
                "Operators" => option(Operator::from(i as u16).ok().map(|operator| {
                    a(vec![
                        s(&format!("{operator:?}")),
                        option(operator.default().map(numbers)),
                    ])
                })),
                name => panic!("unknown table {name}"),
            }));
            result.unwrap_or_else(|_| a(vec![n(0), n(0), n(0)]))
        })
        .collect())
}
