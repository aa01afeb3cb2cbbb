// every section of an accepted text is kept under its own identity with its own settings: none is lost or replaced
pub proof fn c13_every_section_kept(ls: Seq<Seq<char>>, c: Cfg)
    requires run(ls, c) is Some, c.def is None ==> c.all == Map::<SessionId, SMap>::empty(), c.all.dom().finite()
    ensures ({
        let r = run(ls, c)->0;
        &&& r.all.dom().finite() && r.all.len() == c.all.len() + nsec(ls)
        &&& forall|i: SessionId| #[trigger] c.all.contains_key(i) ==> r.all.contains_key(i) && r.all[i] == c.all[i]
        &&& c.def is Some ==> r.def == c.def
        &&& r.def is Some && (c.def is Some ==> c.all.contains_key(sid_default()) && c.all[sid_default()] == c.def->0) ==> r.all.contains_key(sid_default()) && r.all[sid_default()] == r.def->0
    })
    decreases ls.len()
{
    if ls.len() > 0 {
        let rest = ls.drop_first();
        lem_tlen(rest);
        if !is_head(ls[0]) { c13_every_section_kept(rest, c); } else {
            let t = table(rest.take(tlen(rest)))->0;
            let c2 = section(c, ls[0], t)->0;
            let r2 = rest.skip(tlen(rest));
            c13_every_section_kept(r2, c2);
            let r = run(ls, c)->0;
            assert(run(r2, c2) == run(ls, c));
            assert(nsec(ls) == 1 + nsec(r2));
            let k = if has_text(trim(ls[0]), "Default"@) { sid_default() } else { sid_of(t, c.def->0) };
            assert(!c.all.contains_key(k) && c2.all == c.all.insert(k, t));
            assert(c2.all.len() == c.all.len() + 1);
            assert forall|i: SessionId| #[trigger] c.all.contains_key(i) implies r.all.contains_key(i) && r.all[i] == c.all[i] by { assert(c2.all.contains_key(i)); }
        }
    }
}
// a second default section, a session section before the default one, and a second section with the same identity are refused
pub proof fn c13_misplaced_section_refused(c: Cfg, ls: Seq<Seq<char>>)
    requires ls.len() > 0, is_head(ls[0]), ({
        let rest = ls.drop_first(); let t = table(rest.take(tlen(rest))); let default = has_text(trim(ls[0]), "Default"@);
        ||| t is None
        ||| default && c.def is Some
        ||| !default && c.def is None
        ||| !default && c.def is Some && ids_given(t->0, c.def->0) && c.all.contains_key(sid_of(t->0, c.def->0))
        ||| !default && c.def is Some && !ids_given(t->0, c.def->0)
    })
    ensures run(ls, c) is None
{}
// a text without a default section is refused
pub proof fn c13_no_default_refused(ls: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ls.len() ==> !(is_head(ls[i]) && has_text(trim(#[trigger] ls[i]), "Default"@))
    ensures match run(ls, cfg0()) { Some(c) => !cfg_ok(c), None => true }
    decreases ls.len()
{
    if ls.len() > 0 && !is_head(ls[0]) {
        assert forall|i: int| 0 <= i < ls.drop_first().len() implies !(is_head(ls.drop_first()[i]) && has_text(trim(#[trigger] ls.drop_first()[i]), "Default"@)) by { assert(ls[i + 1] == ls.drop_first()[i]); }
        c13_no_default_refused(ls.drop_first());
    }
}
// the last of repeated keys wins, other keys stay
pub proof fn c13_last_key_wins(ls: Seq<Seq<char>>)
    requires ls.len() > 0, table(ls) is Some, trim(ls.last()).len() > 0
    ensures ({
        let l = trim(ls.last()); let k = mk(bare(l.subrange(0, find(l, '=') as int))); let v = bare(l.subrange(find(l, '=') as int + 1, l.len() as int));
        table(ls)->0[k]@ == v && forall|o: String| o != k ==> (#[trigger] table(ls)->0.contains_key(o) == table(ls.drop_last())->0.contains_key(o)) && table(ls)->0[o] == table(ls.drop_last())->0[o]
    })
{}
