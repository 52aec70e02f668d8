pub mod doc;
pub mod life;
pub mod proto;
pub mod sched;
pub mod world;
use crate::docs::{self, Docs, ALL, LF, PLAIN, SOME};
use crate::engine::{Check, Ctx, Space, Tier, Verdict};

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21"];

fn each(d: Docs, f: impl Fn(&mut Ctx, &str) -> Verdict + Send + Sync + 'static) -> Space {
    let at = d.at.clone();
    Space::new(d.name, d.what, d.size, move |ctx, i| {
        let t = at(i);
        f(ctx, &t).map_err(|e| format!("{e}\n--- document ---\n{t:?}"))
    })
}
fn named(mut s: Space, n: &str) -> Space {
    s.name = format!("{}:{n}", s.name);
    s
}

pub fn build(id: &str, tier: Tier) -> Option<Check> {
    let q = tier == Tier::Quick;
    let id: &'static str = IDS.iter().find(|x| **x == id)?;
    let mut v: Vec<Space> = vec![];
    let pick = |a: u32, b: u32| if q { a } else { b };
    match id {
        "C01" => {
            for d in [docs::chars(3), docs::prefixes(), docs::neighbours(1), docs::stmts(2).styled(if q { LF } else { ALL }), docs::pairs().styled(ALL), docs::scale(if q { 20 } else { 60 }), docs::multiplicity(2), docs::characters(), docs::names(!q), docs::huge(!q), docs::many(!q), docs::annotations(if q { 60 } else { 200 }), docs::examples()] {
                v.push(each(d, |c, t| proto::c01_doc(c, t, false)));
            }
            for d in [docs::chars(4), docs::top_tokens(3), docs::body_tokens(3)] {
                v.push(named(each(d, |c, t| proto::c01_doc(c, t, true)), "all-positions"));
            }
            v.push(proto::c01_names(pick(2, 3)));
            v.push(proto::c01_characters());
            v.push(proto::c01_uris());
            v.push(proto::c01_commands());
            v.push(proto::c01_payloads(!q));
            v.push(proto::c01_sequences(pick(3, 4)));
            v.push(proto::c01_repeated(if q { 150 } else { 1100 }));
            v.push(sched::schedules("overlapping", 1, 2, "open", true, Some(pick(0, 1)), None));
            v.push(sched::schedules("overlapping-3", 3, 3, "open", true, Some(pick(0, 1)), Some(&["change A 1", "graph A", "cancel", "outline A"])));
        }
        "C02" => {
            v.push(proto::c02("histories", 2, 4, 1, 3));
            v.push(proto::c02("histories-3-documents", 3, 2, 1, pick(3, 4)));
            v.push(proto::c02("histories-1-document", 1, 3, 4, pick(4, 5)));
            v.push(proto::c02_uris());
            v.push(proto::c02_versions());
            v.push(proto::c02_others(pick(3, 4)));
            v.push(proto::c02_similar(pick(2, 3)));
            v.push(proto::c02_pairs(0));
            v.push(proto::c02_edits());
            v.push(proto::c02_typing());
            v.push(proto::c02_long(if q { 40 } else { 300 }));
            v.push(proto::c02_many(if q { 300 } else { 1100 }));
            v.push(proto::c02_sizes(if q { 20 } else { 22 }));
            if !q {
                v.push(proto::c02("histories-deep", 2, 2, 4, 4));
            }
        }
        "C07" => {
            v.push(world::c07());
            v.push(world::c07_declarations());
            v.push(proto::addresses("addresses", &["textDocument/definition"]));
            v.push(world::c07_texts(pick(4, 5)));
            v.push(world::c07_files(pick(5, 8)));
        }
        "C15" => {
            v.push(world::c15_shapes());
            v.push(world::c15_instructions());
            v.push(world::c15_files(if q { 5 } else { 7 }));
            v.push(proto::addresses("addresses", &["textDocument/inlayHint"]));
            v.push(world::c15_lengths(if q { 110 } else { 600 }));
            v.push(world::c15_many(if q { 120 } else { 300 }));
            v.push(world::c15_links(pick(5, 6)));
            v.push(world::c15_symbols(pick(3, 4)));
            v.push(world::c15(pick(2, 3)));
        }
        "C17" => {
            v.push(sched::cuts(!q));
            v.push(sched::startup("open"));
            v.push(sched::startup("blocked"));
            v.push(sched::bursts(if q { 12 } else { 40 }));
            v.push(sched::rounds(if q { 140 } else { 1100 }));
            const MIX: &[&str] = &["change A 1", "change A 2", "change B 1", "outline A", "graph A", "cancel", "rename A"];
            v.push(sched::schedules("open", 1, 2, "open", true, None, None));
            v.push(sched::schedules("open-3", 3, 3, "open", !q, Some(1), None));
            v.push(sched::schedules("blocked", 1, 2, "blocked", !q, Some(pick(2, 4)), None));
            v.push(sched::schedules("blocked-3", 3, 3, "blocked", false, Some(1), if q { Some(MIX) } else { None }));
            v.push(sched::schedules("trickle", 1, 2, "trickle", false, Some(pick(1, 3)), None));
            v.push(sched::large_schedules(6000, 1, 2, "open", Some(pick(1, 3))));
            v.push(sched::large_schedules(6000, 3, 3, "open", Some(pick(0, 1))));
            v.push(sched::large_schedules(6000, 1, 2, "blocked", Some(1)));
            v.push(sched::large_schedules(70_000, 1, 2, "open", Some(pick(0, 1))));
            if !q {
                v.push(sched::large_schedules(300_000, 1, 2, "open", Some(0)));
                v.push(sched::schedules("open-3-mix", 3, 3, "open", true, Some(2), Some(MIX)));
                v.push(sched::schedules("open-4-mix", 4, 4, "open", false, Some(1), Some(MIX)));
                v.push(sched::schedules("blocked-4-mix", 4, 4, "blocked", false, Some(0), Some(MIX)));
            }
        }
        "C19" => {
            v.push(proto::c19(true));
            v.push(proto::c19_capabilities());
        }
        "C21" => {
            v.push(life::sequences(pick(5, 6)));
            v.push(life::cuts());
            v.push(life::farewell_addresses());
            v.push(life::farewell_many(if q { 70 } else { 300 }));
            for d in [docs::stmts(pick(2, 3)), docs::pairs(), docs::chars(3), docs::multiplicity(2), docs::examples()] {
                v.push(named(each(d, life::farewell_doc), "farewell"));
            }
            v.push(life::endings(pick(4, 5), 8));
        }
        "C03" => {
            for d in [docs::chars(pick(3, 4)), docs::stmts(pick(2, 3)).styled(ALL), docs::pairs().styled(ALL), docs::prefixes(), docs::lexemes(), docs::words(), docs::characters(), docs::names(!q), docs::scale(if q { 12 } else { 60 }), docs::huge(!q), docs::many(!q), docs::examples()] {
                v.push(each(d, doc::c03));
            }
        }
        "C04" => {
            for d in [
                docs::chars(pick(4, 5)), docs::top_tokens(pick(3, 4)), docs::body_tokens(pick(3, 4)), docs::stmts(pick(3, 3)).styled(if q { SOME } else { ALL }),
                docs::broken_mix().styled(if q { LF } else { ALL }), docs::prefixes(), docs::lexemes(), docs::words(), docs::characters(), docs::unicode(), docs::names(true), docs::scale(if q { 40 } else { 200 }), docs::huge(!q), docs::many(!q), docs::examples(),
            ] {
                v.push(each(d, doc::c04));
            }
            v.push(each(docs::signatures(), doc::c04));
            v.push(proto::addresses("addresses", &["textDocument/semanticTokens/full"]));
        }
        "C05" | "C06" | "C10" | "C14" | "C16" | "C13" => {
            let f: fn(&mut Ctx, &str) -> Verdict = match id {
                "C05" => doc::c05,
                "C06" => doc::c06,
                "C10" => doc::c10,
                "C13" => doc::c13,
                "C14" => doc::c14,
                _ => doc::c16,
            };
            for d in [
                docs::stmts(pick(2, 3)).styled(if q { ALL } else { SOME }), docs::bodies(pick(2, 3)).styled(if q { PLAIN } else { LF }), docs::pairs().styled(ALL),
                docs::neighbours(1), docs::mnemonics(), docs::signatures(), docs::broken_mix().styled(LF), docs::multiplicity(pick(3, 5) as u64), docs::characters(), docs::names(true), docs::scale(if q { 12 } else { 60 }), docs::huge(!q), docs::many(!q), docs::examples(),
            ] {
                v.push(each(d, f));
            }
            v.push(proto::addresses(
                "addresses",
                match id {
                    "C05" => &["textDocument/definition", "textDocument/declaration"],
                    "C06" => &["textDocument/references"],
                    "C10" => &["textDocument/rename", "textDocument/prepareRename"],
                    "C13" => &["workspace/executeCommand", "textDocument/codeLens"],
                    "C14" => &["textDocument/inlayHint"],
                    _ => &["textDocument/documentSymbol", "textDocument/foldingRange", "textDocument/codeLens"],
                },
            ));
            if q {
                v.push(named(each(docs::bodies(3), f), "3"));
            }
            if *id == *"C13" {
                v.push(proto::c13_commands());
            }
            if *id == *"C10" {
                v.push(proto::c10_names(pick(3, 4)));
                v.push(proto::c10_characters(!q));
            }
        }
        "C08" => {
            for d in [
                docs::stmts(3).styled(if q { LF } else { ALL }), docs::bodies(3).styled(if q { PLAIN } else { ALL }), docs::pairs().styled(ALL),
                docs::neighbours(1), docs::mnemonics(), docs::signatures(), docs::lexemes(), docs::words(), docs::body_tokens(pick(3, 4)), docs::top_tokens(pick(3, 4)), docs::multiplicity(pick(4, 7) as u64), docs::characters(), docs::names(true), docs::scale(if q { 40 } else { 200 }), docs::huge(!q), docs::many(!q), docs::examples(),
            ] {
                v.push(each(d, doc::c08));
            }
            v.push(proto::addresses("addresses", &["diagnostics"]));
        }
        "C09" => {
            for d in [
                docs::chars(pick(4, 5)), docs::top_tokens(pick(3, 4)), docs::body_tokens(pick(3, 4)), docs::stmts(3).styled(if q { LF } else { ALL }),
                docs::bodies(pick(2, 3)).styled(SOME), docs::neighbours(1), docs::mnemonics(), docs::signatures(), docs::prefixes(), docs::lexemes(), docs::words(), docs::characters(), docs::names(true), docs::multiplicity(2), docs::scale(if q { 40 } else { 200 }), docs::huge(!q), docs::many(!q), docs::examples(),
            ] {
                v.push(each(d, doc::c09));
            }
            v.push(proto::addresses("addresses", &["diagnostics"]));
            v.push(each(docs::broken_mix().styled(if q { LF } else { SOME }), doc::c09_local));
            if !q {
                v.push(each(docs::neighbours(2), doc::c09));
            }
        }
        "C11" => {
            for d in [docs::stmts(pick(2, 3)).styled(SOME), docs::pairs().styled(SOME), docs::multiplicity(pick(2, 3) as u64), docs::names(!q), docs::huge(!q), docs::many(!q), docs::scale(if q { 12 } else { 60 })] {
                v.push(each(d, |c, t| doc::c11(c, t, &["+1", "-1", "+7", "-2", "+0", "+", "-", "+x"])));
            }
            v.push(each(proto::numbered(pick(3, 4)), |c, t| doc::c11(c, t, proto::SHIFTS)));
            v.push(proto::addresses("addresses", &["textDocument/rename"]));
        }
        "C12" => {
            for lazy in [false, true] {
                for d in [docs::stmts(pick(2, 3)).styled(SOME), docs::pairs().styled(SOME), docs::multiplicity(pick(2, 3) as u64), docs::names(!q), docs::huge(!q), docs::many(!q), docs::scale(12)] {
                    v.push(named(each(d, move |c, t| doc::c12(c, t, lazy)), if lazy { "lazy" } else { "eager" }));
                }
                v.push(named(each(proto::numbered(pick(2, 3)), move |c, t| doc::c12(c, t, lazy)), if lazy { "lazy" } else { "eager" }));
            }
            v.push(proto::addresses("addresses:eager", &["textDocument/codeAction"]));
            v.push(proto::addresses("addresses:lazy", &["textDocument/codeAction", "codeAction/resolve"]));
            v.push(proto::c12_histories());
            v.push(proto::c01_payloads(!q));
        }
        "C18" => {
            for d in [docs::chars(pick(3, 4)), docs::stmts(pick(2, 2)).styled(SOME), docs::pairs().styled(SOME), docs::characters(), docs::signatures(), docs::multiplicity(pick(2, 4) as u64), docs::names(!q), docs::prefixes(), docs::huge(!q), docs::many(!q), docs::scale(10)] {
                v.push(each(d, doc::c18));
            }
            if !q {
                v.push(each(docs::broken_mix(), doc::c18));
                v.push(each(docs::examples(), doc::c18));
            }
        }
        _ => return None,
    }
    Some(Check { id, spaces: v, assumptions: vec![] })
}
