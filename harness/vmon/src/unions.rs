//! Monitors of unions: the discriminant decides.
use crate::glue::*;
use crate::structs::call;
use crate::*;
use vir::refm::{self, gen_item, get_bits, set_bits, GenOpt};
use vir::{mask, Item};

pub fn c13(c: &mut Ctx, t: &Tables) {
    let w = world();
    let n = if c.rounds > 0 { c.rounds } else if c.tier > 0 { 60 } else { 6 };
    for g in t.unions {
        let r = tref(g.r);
        let u = w.union(r);
        c.what = format!("{} union {}::{}", w.name, w.protos[r.proto].name, u.name);
        c.add("unions", 1);
        let l = w.disc_leaf(r);
        let bits = l.bits() as u32;
        let rsize = w.byte_size(u.root);
        let disc = |c: &mut Ctx, raw: u64| -> Vec<u8> {
            let mut b = c.rng.bytes(rsize);
            set_bits(&mut b, l.off, bits as usize, l.big, raw);
            b
        };
        // Every discriminant value, or the declared ones, their neighbours and random ones.
        let mut raws: Vec<u64> = if bits <= 12 && !c.miri { (0..1 << bits).collect() } else { Vec::new() };
        for k in &u.cases {
            raws.push(k.raw);
            raws.push(k.raw.wrapping_add(1) & mask(bits));
            raws.push(k.raw.wrapping_sub(1) & mask(bits));
            let flip = 1 << c.rng.below(bits as u64);
            raws.push(k.raw ^ flip);
            for low in [8, 16, 32] {
                if low < bits {
                    // Equal in the low bits only.
                    raws.push(k.raw ^ 1 << low);
                }
            }
        }
        for _ in 0..20 {
            raws.push(c.rng.bits(bits));
        }
        let o = GenOpt { max_items: 3, max_str: 8 };
        for raw in raws {
            let d = disc(c, raw);
            let case = u.cases.iter().position(|k| k.raw == raw);
            c.see_u(&[r.proto as u64, r.idx as u64, case.map(|k| k as u64).unwrap_or(99), 1]);
            c.add("discriminants", 1);
            let body = match case.and_then(|k| u.cases[k].item) {
                Some(i) => {
                    let v = gen_item(w, i, false, &mut c.rng, o);
                    enc_item(i, &v)
                }
                None => {
                    let n = c.rng.idx(20);
                    c.rng.bytes(n)
                }
            };
            let got = call!(c, format!("reading with discriminant {:#x}", raw), (g.read)(&d, &body), continue);
            let want = refm::decode_union(w, r, raw, &body, true);
            let ok = match (&got, &want) {
                (Ok((n, v)), Ok((x, m))) => v == x && (n == m || *n == body.len() && tail(u.cases[case.unwrap()].item)),
                (Err(a), Err(b)) => a == b,
                _ => false,
            };
            c.check(ok, || format!("discriminant {:#x}, content {} reads as {} instead of {}", raw, hex(&body), short(&got), short(&want)));
            if c.full() {
                return;
            }
        }
        for (k, case) in u.cases.iter().enumerate() {
            for round in 0..n {
                let v = Val::Union(k, case.item.map(|i| Box::new(gen_item(w, i, false, &mut c.rng, o))));
                let kk = K::new(c.rng.next());
                let body = match (&v, case.item) {
                    (Val::Union(_, Some(x)), Some(i)) => enc_item(i, x),
                    _ => Vec::new(),
                };
                c.see_u(&[r.proto as u64, r.idx as u64, k as u64, 2]);
                // Which case it is.
                let which = call!(c, "as_ and is_", (g.cases)(&v, &kk), continue);
                c.check(which.iter().enumerate().all(|(i, b)| *b == (i == k)), || format!("{} answers {:?} to which of the cases it is", short(&v), which));
                // Setting the discriminant.
                let extra = c.rng.idx(4);
                let mut d = c.rng.bytes(rsize + extra);
                let before = d.clone();
                let mut want = d.clone();
                set_bits(&mut want, l.off, bits as usize, l.big, case.raw);
                call!(c, format!("setting the discriminant of {}", short(&v)), (g.set)(&v, &kk, &mut d), continue);
                c.check(d == want, || format!("setting the discriminant of {} turns {} into {} instead of {}", short(&v), hex(&before), hex(&d), hex(&want)));
                // Writing and reading back.
                let d = want;
                let mut out = Vec::new();
                let res = call!(c, format!("writing {}", short(&v)), (g.write)(&v, &kk, &d, &mut out), continue);
                c.check(res == Ok(()) && out == body, || format!("{} with its discriminant is written as {} ({:?}) instead of {}", short(&v), hex(&out), res, hex(&body)));
                let got = call!(c, "reading", (g.read)(&d, &out), continue);
                c.check(matches!(&got, Ok((_, x)) if *x == v), || format!("{} written as {} reads back as {}", short(&v), hex(&out), short(&got)));
                c.add("round_trips", 1);
                // Writing with another discriminant.
                let raw = match round % 3 {
                    0 => u.cases[c.rng.idx(u.cases.len())].raw,
                    1 => case.raw ^ 1 << c.rng.below(bits as u64),
                    _ => c.rng.bits(bits),
                };
                if raw != case.raw {
                    let d = disc(c, raw);
                    assert_eq!(get_bits(&d, l.off, bits as usize, l.big), raw);
                    let mut out = Vec::new();
                    let res = call!(c, format!("writing {}", short(&v)), (g.write)(&v, &kk, &d, &mut out), continue);
                    c.check(matches!(res, Err(ErrK::Disc(_))) && out.is_empty(), || format!("{} with discriminant {:#x} instead of {:#x} gives {:?} and {}", short(&v), raw, case.raw, res, hex(&out)));
                    c.add("mismatches", 1);
                }
                // Truncated content.
                if !body.is_empty() && !payload(case.item) {
                    let n = c.rng.idx(body.len());
                    let got = call!(c, "reading", (g.read)(&d, &body[..n]), continue);
                    let ok = match &got {
                        Err(e) => *e == ErrK::Truncated,
                        Ok((_, v)) => v.list_err() == Some(&ErrK::Truncated),
                    };
                    c.check(ok, || format!("the first {} bytes of {} read as {}", n, hex(&body), short(&got)));
                }
                free_all();
                if c.full() {
                    return;
                }
            }
        }
        NOTES.with(|n| n.borrow_mut().clear());
        free_all();
        if c.late() {
            return;
        }
    }
    in_messages(c, t);
}

/// Unions as message fields: the message's own field decides.
fn in_messages(c: &mut Ctx, t: &Tables) {
    let w = world();
    for g in t.msgs {
        let r = tref(g.r);
        if !w.msg(r).fields.iter().any(|f| matches!(f.kind, vir::MKind::Union { .. })) {
            continue;
        }
        c.what = format!("{} message {}::{}", w.name, w.protos[r.proto].name, w.msg(r).name);
        for k in 0..if c.miri { 4 } else { 30 } {
            let v = refm::gen(w, r, &mut c.rng, GenOpt { max_items: 3, max_str: 8 });
            let e = refm::encode(w, r, &v);
            let kk = K::new(c.rng.next());
            let mut out = Vec::new();
            let res = call!(c, format!("writing {}", short(&v)), (g.encode)(&v, &kk, &mut out), continue);
            c.check(res == Ok(()) && out == e.bytes, || format!("{} is written as {} ({:?}) instead of {}", short(&v), hex(&out), res, hex(&e.bytes)));
            let got = call!(c, "reading", (g.decode)(&e.bytes), continue);
            c.check(matches!(&got, Ok((_, x)) if *x == v), || format!("{} reads as {} instead of {}", hex(&e.bytes), short(&got), short(&v)));
            c.add("union_messages", 1);
            // The discriminant of one of its unions does not match.
            let mut bad = v.clone();
            if let Val::Msg(fs) = &mut bad {
                for (i, f) in w.msg(r).fields.iter().enumerate() {
                    if let vir::MKind::Union { on, r: u } = &f.kind {
                        let l = w.disc_leaf(*u);
                        let case = match &fs[i] {
                            Val::Union(k, _) => w.union(*u).cases[*k].raw,
                            _ => unreachable!(),
                        };
                        let raw = if k % 2 == 0 { case ^ 1 << c.rng.below(l.bits() as u64) } else { c.rng.bits(l.bits() as u32) };
                        if raw == case {
                            continue;
                        }
                        if let Val::Bytes(b) = &mut fs[*on] {
                            set_bits(b, l.off, l.bits(), l.big, raw);
                        }
                        let mut out = Vec::new();
                        let res = call!(c, format!("writing {}", short(&fs)), (g.encode)(&Val::Msg(fs.clone()), &kk, &mut out), return);
                        c.check(matches!(res, Err(ErrK::Disc(_))), || format!("{} with discriminant {:#x} instead of {:#x} is written as {} ({:?})", short(&v), raw, case, hex(&out), res));
                        c.add("mismatches", 1);
                        break;
                    }
                }
            }
            free_all();
            if c.full() {
                return;
            }
        }
        NOTES.with(|n| n.borrow_mut().clear());
    }
}

fn enc_item(i: Item, v: &Val) -> Vec<u8> {
    match (i, v) {
        (Item::Struct(_), Val::Bytes(b)) => b.clone(),
        (Item::Msg(m), v) => refm::encode(world(), m, v).bytes,
        _ => panic!("value"),
    }
}

fn tail(i: Option<Item>) -> bool {
    matches!(i, Some(Item::Msg(m)) if world().has_tail(m))
}

fn payload(i: Option<Item>) -> bool {
    matches!(i, Some(Item::Msg(m)) if world().has_payload(m))
}
