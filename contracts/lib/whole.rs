// ---- P02, P04: a whole message is read back

/// The records of a field inside a message do what they do to the field alone.
proof fn in_message<D: FieldDescriptorLike>(desc: MessageDescriptor, d: &D, st: State, f: F, s: Seq<u8>, limit: int, c: DecodeContext, w: F, t: Seq<u8>)
    requires
        held(st, d) == f, dec_loop(record_step(d, c), f, s, limit) == Some((w, t)),
        // the message looks the number up to this field
        forall|st: State, w: WireType, s: Seq<u8>| #[trigger] message_record(desc, st, d.s_number(), w, s, c) == field_record(st, d, w, s, c),
    ensures dec_loop(message_step(desc, c), st, s, limit) == Some((if s.len() > limit { put(st, d, w) } else { st }, t)),
    decreases s.len()
{
    let step = record_step(d, c); let mstep = message_step(desc, c);
    if s.len() > limit {
        let (f1, s1) = step(f, s)->Some_0;
        let st1 = put(st, d, f1);
        assert(mstep(st, s) == Some((st1, s1)));
        assert(held(st1, d) == f1);
        in_message(desc, d, st1, f1, s1, limit, c, w, t);
        assert(put(st1, d, w) =~= put(st, d, w));
        if s1.len() <= limit { assert(w == f1); }
    }
}
/// The field's value as it is read back.
pub open spec fn back_field<D: FieldDescriptorLike>(v: Value, d: &D) -> F {
    if d.s_list() { F::List(backs(v->List_0@)) } else if d.s_map() { F::Map(put_all(Map::empty(), entries(v->Map_0), d.s_kind()->Message_0)) } else { F::One(back(v)) }
}
/// The messages nested in a value are read back (the induction hypothesis), and entries have lengths.
pub open spec fn field_fits<D: FieldDescriptorLike>(v: Value, d: &D, c: DecodeContext) -> bool {
    if d.s_list() { (forall|i: int| 0 <= i < v->List_0@.len() ==> nested_ok(#[trigger] v->List_0@[i], d.s_kind(), group_of(d), c)) && cat(packed_parts(v->List_0@, d.s_kind())).len() <= u64::MAX }
    else if d.s_map() { forall|i: int| 0 <= i < entries(v->Map_0).len() ==> entry_fits(#[trigger] entries(v->Map_0)[i], d.s_kind()->Message_0, c) }
    else { nested_ok(v, d.s_kind(), group_of(d), c) }
}
/// P02: the records of a present field give its value back.
#[verifier::spinoff_prover]
proof fn field_read<D: FieldDescriptorLike>(v: Value, d: &D, rest: Seq<u8>, c: DecodeContext)
    requires field_desc_ok(d, d.s_number()), value_ok(v, d), field_fits(v, d, c), d.s_presence() || !d.s_is_default(v),
    ensures
        dec_loop(record_step(d, c), fv(d.s_default()), enc(v, d) + rest, rest.len() as int) == Some((back_field(v, d), rest)),
        enc(v, d).len() > 0,
{
    hide(dec_loop); hide(record_step); hide(dec_scalar); hide(varint); hide(record);
    let k = d.s_kind(); let step = record_step(d, c);
    if d.s_list() {
        let vs = v->List_0@;
        assert(vs.len() > 0);
        if d.s_packed() {
            packed_read(Seq::empty(), vs, d, rest, c);
            assert(gvs(vs) =~= backs(vs)) by { assert forall|i: int| 0 <= i < vs.len() implies back(#[trigger] vs[i]) == gv(vs[i]) by { assert(scalar_ok(vs[i], k)); } }
            assert(Seq::<G>::empty() + gvs(vs) =~= backs(vs));
            key_some(d.s_number(), WireType::LengthDelimited);
        } else {
            unpacked_read(Seq::empty(), vs, d, rest, c);
            assert(Seq::<G>::empty() + backs(vs) =~= backs(vs));
            cat_front(list_parts(vs, d));
            record_some(vs[0], d);
        }
    } else if d.s_map() {
        let es = entries(v->Map_0);
        map_read(Map::empty(), es, d, rest, c);
        cat_front(map_parts(es, d.s_number(), k->Message_0));
        key_some(d.s_number(), WireType::LengthDelimited);
    } else {
        single_read(v, d, gv(d.s_default()), rest, c);
        record_some(v, d);
    }
}
proof fn key_some(n: u32, w: WireType)
    requires field_number(n),
    ensures key(n, w).len() > 0,
{
    varint_len((n * 8 + wire_num(w)) as u64);
}
proof fn record_some<D: FieldDescriptorLike>(v: Value, d: &D)
    requires field_number(d.s_number()),
    ensures record(v, d).len() > 0,
{
    key_some(d.s_number(), WireType::StartGroup); key_some(d.s_number(), wt(d.s_kind()));
}
/// P04: unknown records are kept in order.
proof fn unknowns_read(desc: MessageDescriptor, st: State, us: Seq<Rec>, n: u32, rest: Seq<u8>, c: DecodeContext)
    requires
        desc.s_field(n) is None, desc.s_extension(n) is None, unknown_ok(us, n),
        forall|i: int| 0 <= i < us.len() ==> depth_within(#[trigger] us[i], c.depth()),
    ensures dec_loop(message_step(desc, c), st, recs(us) + rest, rest.len() as int) == Some((if us.len() > 0 { put_unknown(st, n, unknown_at(st, n) + us) } else { st }, rest)),
    decreases us.len()
{
    let s = recs(us) + rest; let step = message_step(desc, c);
    if us.len() == 0 {
        assert(s =~= rest);
    } else {
        let u = us[0];
        recs_front(us);
        let after = recs(us.skip(1)) + rest;
        assert(rec_ok(u));
        assert(s =~= key(n, rec_type(u)) + (rec_body(u) + after));
        key_read(n, rec_type(u), rec_body(u) + after);
        rec_read(u, after, c.depth());
        varint_len((n * 8 + wire_num(rec_type(u))) as u64);
        let st1 = put_unknown(st, n, unknown_at(st, n).push(u));
        assert(step(st, s) == Some((st1, after)));
        one_step(step, st, s, st1, after);
        loop_compose(step, st, s, after.len() as int, rest.len() as int);
        assert(forall|i: int| 0 <= i < us.skip(1).len() ==> #[trigger] us.skip(1)[i] == us[i + 1]);
        unknowns_read(desc, st1, us.skip(1), n, rest, c);
        assert(unknown_at(st1, n) + us.skip(1) =~= unknown_at(st, n) + us);
        if us.skip(1).len() > 0 { assert(put_unknown(st1, n, unknown_at(st1, n) + us.skip(1)) =~= put_unknown(st, n, unknown_at(st, n) + us)); }
        else { assert(st1 =~= put_unknown(st, n, unknown_at(st, n) + us)); }
    }
}
/// What an item leaves in its slot once it is read back.
pub open spec fn back_item(it: Item) -> Option<Slot> {
    match it { Item::Field(v, d) => Some(Slot::Known(back_field(v, &d))), Item::Extension(v, d) => Some(Slot::Known(back_field(v, &d))), Item::Unknown(us) => if of_set(us).len() > 0 { Some(Slot::Unknown(of_set(us))) } else { None } }
}
pub open spec fn item_fits(it: Item, c: DecodeContext) -> bool {
    match it { Item::Field(v, d) => field_fits(v, &d, c), Item::Extension(v, d) => field_fits(v, &d, c), Item::Unknown(us) => forall|i: int| 0 <= i < of_set(us).len() ==> depth_within(#[trigger] of_set(us)[i], c.depth()) }
}
pub open spec fn item_siblings(it: Item) -> ISet<u32> { match it { Item::Field(v, d) => siblings(&d), Item::Extension(v, d) => siblings(&d), _ => iset![] } }
pub open spec fn set_slot(st: State, n: u32, s: Option<Slot>) -> State { |k: u32| if k == n { s } else { st(k) } }
#[verifier::spinoff_prover]
proof fn item_read(desc: MessageDescriptor, m: Slots, st: State, n: u32, it: Item, rest: Seq<u8>, c: DecodeContext)
    requires
        message_desc_ok(desc), message_ok(desc, m), shows(desc, m, n, it), item_fits(it, c), st(n) is None,
        forall|k: u32| item_siblings(it).contains(k) ==> (#[trigger] st(k)) is None,
    ensures dec_loop(message_step(desc, c), st, part(it) + rest, rest.len() as int) == Some((set_slot(st, n, back_item(it)), rest)),
{
    hide(dec_loop); hide(dec_field); hide(enc); hide(recs); hide(back_field); hide(siblings); hide(field_fits); hide(record_step); hide(message_step);
    assert(match desc.s_field(n) { Some(d) => field_desc_ok(&d, n) && desc.s_extension(n) is None, None => true });
    assert(match desc.s_field(n) { Some(d) => match stored(m, n) { Some(v) => value_ok(v, &d), None => true }, None => true });
    assert(match desc.s_extension(n) { Some(d) => field_desc_ok(&d, n), None => true });
    assert(match desc.s_extension(n) { Some(d) => match stored(m, n) { Some(v) => value_ok(v, &d), None => true }, None => true });
    assert(opt_get(m, n) is Some || opt_get(m, n) is None);
    match it {
        Item::Field(v, d) => {
            field_read(v, &d, rest, c);
            assert forall|st: State, w: WireType, s: Seq<u8>| #[trigger] message_record(desc, st, d.s_number(), w, s, c) == field_record(st, &d, w, s, c) by {}
            in_message(desc, &d, st, fv(d.s_default()), part(it) + rest, rest.len() as int, c, back_field(v, &d), rest);
            assert(put(st, &d, back_field(v, &d)) =~= set_slot(st, n, back_item(it)));
        }
        Item::Extension(v, d) => {
            field_read(v, &d, rest, c);
            assert forall|st: State, w: WireType, s: Seq<u8>| #[trigger] message_record(desc, st, d.s_number(), w, s, c) == field_record(st, &d, w, s, c) by {}
            in_message(desc, &d, st, fv(d.s_default()), part(it) + rest, rest.len() as int, c, back_field(v, &d), rest);
            assert(put(st, &d, back_field(v, &d)) =~= set_slot(st, n, back_item(it)));
        }
        Item::Unknown(us) => {
            unknowns_read(desc, st, of_set(us), n, rest, c);
            assert(unknown_at(st, n) + of_set(us) =~= of_set(us));
            if of_set(us).len() > 0 { assert(put_unknown(st, n, of_set(us)) =~= set_slot(st, n, back_item(it))); } else { assert(st =~= set_slot(st, n, back_item(it))); }
        }
    }
}
/// The message as it is read back: everything it shows, and nothing else.
pub open spec fn back_state(desc: MessageDescriptor, m: Slots) -> State {
    |n: u32| if visible(desc, m, n) { back_item(choose|it: Item| shows(desc, m, n, it)) } else { None }
}
proof fn one_item(desc: MessageDescriptor, m: Slots, n: u32, it: Item)
    requires shows(desc, m, n, it), message_desc_ok(desc),
    ensures back_state(desc, m)(n) == back_item(it),
{
    assert(visible(desc, m, n));
    assert(match desc.s_field(n) { Some(d) => field_desc_ok(&d, n) && desc.s_extension(n) is None, None => true });
    assert(match desc.s_extension(n) { Some(d) => field_desc_ok(&d, n), None => true });
    let o = choose|it: Item| shows(desc, m, n, it);
    assert(opt_get(m, n) is Some || opt_get(m, n) is None);
    assert(o == it);
}
/// Oneofs hold at most one value (P06).
pub open spec fn one_per_oneof(desc: MessageDescriptor, m: Slots) -> bool {
    forall|a: u32, b: u32, x: Item, y: Item| #[trigger] shows(desc, m, a, x) && #[trigger] shows(desc, m, b, y) ==> !item_siblings(x).contains(b)
}
proof fn items_read(m: DynamicMessage, i: int, st: State, rest: Seq<u8>, c: DecodeContext)
    requires
        m.ok(), one_per_oneof(m.desc, m.slots()), 0 <= i <= shown(m.desc, m.slots(), false).len(),
        forall|j: int| 0 <= j < shown(m.desc, m.slots(), false).len() ==> item_fits(#[trigger] shown(m.desc, m.slots(), false)[j], c),
        forall|j: int| 0 <= j < i ==> st(#[trigger] number_at(m.desc, m.slots(), false, j)) == back_item(shown(m.desc, m.slots(), false)[j]),
        forall|n: u32| (#[trigger] st(n)) is Some ==> exists|j: int| 0 <= j < i && #[trigger] number_at(m.desc, m.slots(), false, j) == n,
    ensures dec_loop(message_step(m.desc, c), st, cat(parts(shown(m.desc, m.slots(), false).skip(i))) + rest, rest.len() as int) == Some((back_state(m.desc, m.slots()), rest)),
    decreases shown(m.desc, m.slots(), false).len() - i
{
    hide(part); hide(message_step); hide(back_item); hide(item_siblings); hide(item_fits); hide(shows);
    let s = shown(m.desc, m.slots(), false); let desc = m.desc; let sl = m.slots(); let step = message_step(desc, c);
    shown_once(desc, sl, false);
    if i == s.len() {
        assert(cat(parts(s.skip(i))) + rest =~= rest);
        assert(st =~= back_state(desc, sl)) by {
            assert forall|n: u32| #[trigger] st(n) == back_state(desc, sl)(n) by {
                if visible(desc, sl, n) {
                    let j = choose|j: int| 0 <= j < s.len() && #[trigger] number_at(desc, sl, false, j) == n;
                    one_item(desc, sl, n, s[j]);
                } else if st(n) is Some {
                    let j = choose|j: int| 0 <= j < i && #[trigger] number_at(desc, sl, false, j) == n;
                    assert(shows(desc, sl, n, s[j]));
                    assert(visible(desc, sl, n));
                }
            }
        }
    } else {
        let n = number_at(desc, sl, false, i); let it = s[i];
        let after = cat(parts(s.skip(i + 1))) + rest;
        cat_front(parts(s.skip(i)));
        assert(parts(s.skip(i)).skip(1) =~= parts(s.skip(i + 1)));
        let all = cat(parts(s.skip(i))) + rest;
        assert(all =~= part(it) + after);
        assert(shows(desc, sl, n, it));
        assert forall|k: u32| item_siblings(it).contains(k) implies (#[trigger] st(k)) is None by {
            if st(k) is Some {
                let j = choose|j: int| 0 <= j < i && #[trigger] number_at(desc, sl, false, j) == k;
                assert(shows(desc, sl, k, s[j]));
            }
        }
        item_read(desc, sl, st, n, it, after, c);
        loop_compose(step, st, all, after.len() as int, rest.len() as int);
        let st1 = set_slot(st, n, back_item(it));
        assert forall|k: u32| (#[trigger] st1(k)) is Some implies exists|j: int| 0 <= j < i + 1 && #[trigger] number_at(desc, sl, false, j) == k by {
            if k == n { assert(number_at(desc, sl, false, i) == k); }
            else { let j = choose|j: int| 0 <= j < i && #[trigger] number_at(desc, sl, false, j) == k; assert(0 <= j < i + 1); }
        }
        items_read(m, i + 1, st1, rest, c);
    }
}
/// P02, P04: decoding what a message writes gives everything it shows, and nothing else.
pub proof fn message_read(m: DynamicMessage, rest: Seq<u8>, c: DecodeContext)
    requires
        m.ok(), one_per_oneof(m.desc, m.slots()),
        forall|j: int| 0 <= j < shown(m.desc, m.slots(), false).len() ==> item_fits(#[trigger] shown(m.desc, m.slots(), false)[j], c),
    ensures dec_loop(message_step(m.desc, c), nothing(), written(m) + rest, rest.len() as int) == Some((back_state(m.desc, m.slots()), rest)),
{
    assert(shown(m.desc, m.slots(), false).skip(0) =~= shown(m.desc, m.slots(), false));
    items_read(m, 0, nothing(), rest, c);
}
