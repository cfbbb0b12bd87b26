//! Several programs and readings, one request after another as a schedule says, on several threads.

use crate::json::{o, s, J};
use crate::{cff, charstring, tape};
use postscript::type2::Program;
use std::sync::Barrier;

type Data = (Vec<u8>, Vec<Vec<u8>>, Vec<Vec<u8>>);

/// What a case of its own comes to.
fn alone(object: &J) -> J {
    match object.get("code") {
        Some(_) => charstring::run(object),
        _ => cff::part(object),
    }
}

/// The log of a schedule: pairs of an object and what the request came to.
fn follow(objects: &[J], data: &[Option<Data>], schedule: &[J], early: bool) -> Vec<(i64, J)> {
    let mut log = vec![];
    let create = |i: usize| {
        let (code, local, global) = data[i].as_ref().unwrap();
        match objects[i].get("of") {
            // The sets are beginnings of those of another program.
            Some(of) => {
                let (_, all_local, all_global) = data[of.int() as usize].as_ref().unwrap();
                Program::new(code, &all_global[..global.len()], &all_local[..local.len()])
            }
            _ => Program::new(code, global, local),
        }
    };
    let mut programs: Vec<Option<Program>> = (0..objects.len())
        .map(|i| if early && data[i].is_some() { Some(create(i)) } else { None })
        .collect();
    for item in schedule {
        let (i, nested) = match item {
            J::I(i) => (*i as usize, &[][..]),
            // A reading, during which the input makes others.
            item => (item.arr()[0].int() as usize, &item.arr()[1..]),
        };
        if data[i].is_some() {
            let program = programs[i].get_or_insert_with(|| create(i));
            let (event, alive) = charstring::request(program);
            log.push((i as i64, event));
            if !alive {
                programs[i] = None;
            }
        } else {
            let others: Vec<_> = nested.iter().map(|j| (j.int(), objects[j.int() as usize].clone())).collect();
            tape::nest(others.into_iter().map(|(j, other)| -> tape::Job {
                Box::new(move || (j, alone(&other)))
            }).collect());
            let result = cff::part(&objects[i]);
            log.extend(tape::nested());
            log.push((i as i64, result));
        }
    }
    log
}

pub fn run(case: &J) -> J {
    let objects = case.at("objects").arr();
    let data: Vec<Option<Data>> = objects
        .iter()
        .map(|object| {
            let code = object.get("code")?.bytes();
            Some((code, charstring::set(object.at("l")), charstring::set(object.at("g"))))
        })
        .collect();
    let schedules = case.at("schedules").arr();
    let early = case.at("early").int() == 1;
    let barrier = Barrier::new(schedules.len());
    let logs: Vec<_> = if schedules.len() == 1 {
        vec![Ok(follow(objects, &data, schedules[0].arr(), early))]
    } else {
        std::thread::scope(|scope| {
            let threads: Vec<_> = schedules
                .iter()
                .map(|schedule| {
                    let (data, barrier) = (&data, &barrier);
                    std::thread::Builder::new()
                        .stack_size(2 << 20)
                        .spawn_scoped(scope, move || {
                            barrier.wait();
                            follow(objects, data, schedule.arr(), early)
                        })
                        .unwrap()
                })
                .collect();
            threads.into_iter().map(|thread| thread.join()).collect()
        })
    };
    // The objects of a thread are told apart from those of another.
    let count = objects.len() as i64;
    let mut result = vec![];
    for (t, log) in logs.into_iter().enumerate() {
        match log {
            Ok(log) => {
                for (i, event) in log {
                    result.push(J::A(vec![J::I(t as i64 * count + i), event]));
                }
            }
            _ => result.push(J::A(vec![J::I(t as i64 * count), o().put("k", s("panic"))])),
        }
    }
    J::A(result)
}
