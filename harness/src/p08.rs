//! P08: expanding a table and assembling it again gives back the same table.

use crate::engine::*;
use crate::exp::*;
use crate::p01::{classes, summary};
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;

/// Bring a generated table into the set the property is about.
pub fn canonical(tb: &mut Table, c: &mut Case) {
    let _ = c;
    derive_legacy_tables(tb);
}

fn roundtrip(t: &mut Tape, c: &mut Case) -> Res {
    let fmt = t.below(3);
    let derived = t.chance(1, 4);
    let mut tb = gen_table(t, &Prof { table_sized: derived, ..Prof::default() });
    canonical(&mut tb, c);
    classes(&tb, c);
    c.class(["obj", "glb", "gltf"][fmt as usize]);
    c.class_if(derived, "generated meshes");
    c.sample = Some(summary(&tb));
    let want = tb.streams();
    c.hash = streams_hash(&want);
    let v = parse(&want)?;
    let files = expand(&v, fmt, derived)?;
    let v2 = assemble(&files)?;
    let got = save(&v2)?;
    c.evals = want.len() as u64;
    diff_streams(&normalise(&want), &normalise(&got))
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("table", ctx.n(15000, 300000), "a whole table with at least one part, image or sound; distinct by stream contents", roundtrip);
}
