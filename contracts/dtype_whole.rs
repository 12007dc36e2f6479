/// nothing is missing
pub open spec fn whole(w: W) -> bool decreases w {
    match w {
        W::Prim(p, _) => !(p is Other),
        W::Struct(n, d, _) => n is Some && d is Some && n->0.len() == d->0.len() && forall|i: int| 0 <= i < d->0.len() ==> whole(#[trigger] d->0[i]),
        W::List(e, _) => e is Some && whole(*e->0),
        W::Ext(i, _, _) => i is Some,
        W::Broken => false,
        _ => true,
    }
}
