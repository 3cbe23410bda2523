
//@ text
/// the element of a packed array, seen from the context that has processed k others
pub proof fn delta_facts<T>(num: spec_fn(T) -> int, enc: spec_fn(int, T) -> Bits, canon: spec_fn(T) -> T, sgn: bool, s: Seq<T>, k: int)
    requires is_delta(num, enc, canon, sgn), 0 <= k < s.len(), delta_small(lens(enc, s)),
    ensures
        nums(num, s).len() == s.len(), lens(enc, s).len() == s.len(),
        nums(num, s)[k] == num(s[k]), num_range(sgn, num(s[k])), lens(enc, s)[k] == enc(0, s[k]).len(), lens(enc, s)[0] == enc(0, s[0]).len(),
        0 <= mbn(nums(num, s), s.len() as int) <= 64,
        lens(enc, s)[k] <= 0x1000_0000_0000_0000,
        mbn(nums(num, s), s.len() as int) <= 62 && k > 0 ==> -pow2(mbn(nums(num, s), s.len() as int)) < nums(num, s)[k] - nums(num, s)[k - 1] < pow2(mbn(nums(num, s), s.len() as int)) <= 0x4000_0000_0000_0000
            && num_range(sgn, nums(num, s)[k - 1]) && nums(num, s)[k - 1] == num(s[k - 1]),
        mbn(nums(num, s), s.len() as int) == 0 && k > 0 ==> nums(num, s)[k] == nums(num, s)[k - 1],
{
    let ns = nums(num, s); let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies num_range(sgn, #[trigger] ns[i]) by { let v = s[i]; assert(num_range(sgn, num(v))); }
    mbn_range(ns, sgn, n);
    let v = s[k]; assert(num_range(sgn, num(v)));
    assert(0 <= lens(enc, s)[k] <= 0x1000_0000_0000_0000);
    pow2_vals();
    if k > 0 && mbn(ns, n) <= 62 {
        let u = s[k - 1]; assert(num_range(sgn, num(u)));
        mbn_bounds(ns, n, k);
        pow2_mono(mbn(ns, n), 62);
    }
}
//@ fn DeltaContext::finish_init
    requires old(self).num_elements >= 1, old(self).num_elements <= 0x100_0000_0000_0000, old(self).max_bit_number <= 64,
        old(self).first_element_size <= 0x1000_0000_0000_0000, old(self).unpacked_size <= 0x1000_0000_0000_0000,
    ensures
        *final(self) == (DeltaContext { is_packed: final(self).is_packed, ..*old(self) }),
        final(self).is_packed == (old(self).is_packed && 1 + 6 + old(self).first_element_size + (old(self).num_elements - 1) * (if old(self).max_bit_number > 0 { old(self).max_bit_number + 1 } else { 0 }) < 1 + old(self).unpacked_size),
//@ at DeltaContext::finish_init start
    proof {
        let (a, b) = (self.num_elements - 1, if self.max_bit_number > 0 { self.max_bit_number + 1 } else { 0 });
        assert(0 <= a * b <= 0x100_0000_0000_0000 * 65) by (nonlinear_arith) requires 0 <= a <= 0x100_0000_0000_0000, 0 <= b <= 65;
    }
//@ fn DeltaContext::bitsize_of_descriptor
    ensures res == if self.is_packed { 7u64 } else { 1u64 },
//@ fn DeltaContext::bitsize_of_unpacked
    requires array_trait.okay(), (array_trait.shape())(*element), (array_trait.enc())(0, *element).len() <= u64::MAX,
    ensures
        (array_trait.valid())(*element) ==> res is Ok,
        res matches Ok(r) ==> r == (array_trait.enc())(0, *element).len(),
//@ fn DeltaContext::write_descriptor
    ensures final(writer)@ == old(writer)@ + seq![self.is_packed] + (if self.is_packed { ubits(self.max_bit_number as u64, 6) } else { Seq::empty() }),
//@ at DeltaContext::write_descriptor end
    proof { assert(old(writer)@ + seq![false] + Seq::<bool>::empty() =~= old(writer)@ + seq![false]); }
//@ fn DeltaContext::write_unpacked
    requires array_traits.delta(), array_traits.okay(), is_delta(array_traits.num(), array_traits.enc(), array_traits.canon(), array_traits.sgn()), (array_traits.shape())(*element), old(writer)@.len() + (array_traits.enc())(0, *element).len() <= u64::MAX,
    ensures
        *final(self) == (DeltaContext { previous_element: final(self).previous_element, ..*old(self) }),
        ival(array_traits.sgn(), final(self).previous_element) == (array_traits.num())(*element),
        (array_traits.valid())(*element) ==> res is Ok,
        res is Ok ==> final(writer)@ == old(writer)@ + (array_traits.enc())(0, *element),
//@ fn DeltaContext::read_descriptor
    requires old(reader).wf(), old(self).readable(),
    ensures
        final(reader).after(old(reader)), final(self).readable(),
        *final(self) == (DeltaContext { is_packed: final(self).is_packed, max_bit_number: final(self).max_bit_number, ..*old(self) }),
        old(reader).sees(seq![false]) ==> res is Ok && !final(self).is_packed && final(reader).at(old(reader), 1),
        forall|m: u64| #![trigger ubits(m, 6)] m < 64 && old(reader).sees(seq![true] + ubits(m, 6)) ==> res is Ok && final(self).is_packed && final(self).max_bit_number == m && final(reader).at(old(reader), 7),
//@ at DeltaContext::read_descriptor start
    proof {
        pow2_vals();
        assert(reader.sees(seq![false]) ==> seq![false][0] == false);
        assert forall|m: u64| #![trigger ubits(m, 6)] reader.sees(seq![true] + ubits(m, 6)) implies reader.sees(seq![true]) && reader.all().subrange(reader.pos(), reader.pos() + 1)[0] == true
            && (forall|q: &BitReader| #![trigger q.sees(ubits(m, 6))] q.at(&*reader, 1) ==> q.sees(ubits(m, 6))) by {
            sees_split(reader, seq![true], ubits(m, 6));
        }
    }
//@ fn DeltaContext::read_unpacked
    requires array_traits.delta(), array_traits.okay(), is_delta(array_traits.num(), array_traits.enc(), array_traits.canon(), array_traits.sgn()), old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        *final(self) == (DeltaContext { previous_element: final(self).previous_element, ..*old(self) }),
        forall|v: T| #![trigger (array_traits.enc())(0, v)] (array_traits.valid())(v) && (array_traits.shape())(v) && (array_traits.blank())(*old(value), v) && old(reader).sees((array_traits.enc())(0, v)) ==>
            res is Ok && *final(value) == v && final(reader).at(old(reader), (array_traits.enc())(0, v).len() as int) && ival(array_traits.sgn(), final(self).previous_element) == (array_traits.num())(v),
//@ at DeltaContext::read_unpacked start
    proof {
        assert forall|v: T| #![trigger (array_traits.enc())(0, v)] (array_traits.enc())(0, v) == (array_traits.enc())(reader.pos(), v) && (array_traits.canon())(v) == v by {}
    }
//@ fn DeltaContext::bitsize_of
    requires array_traits.delta(), array_traits.okay(), is_delta(array_traits.num(), array_traits.enc(), array_traits.canon(), array_traits.sgn()), (array_traits.shape())(*element),
        exists|s: Seq<T>, k: int| #![trigger old(self).sz(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k)] old(self).sz(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k) && 0 <= k < s.len() && s[k] == *element && delta_small(lens(array_traits.enc(), s)),
    ensures
        (array_traits.valid())(*element) ==> res is Ok,
        res matches Ok(r) ==> forall|s: Seq<T>, k: int| #![trigger old(self).sz(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k)] old(self).sz(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k) && 0 <= k < s.len() && s[k] == *element && delta_small(lens(array_traits.enc(), s)) ==>
            final(self).sz(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k + 1) && r == delta_enc(array_traits.num(), array_traits.enc(), s, k).len(),
//@ at DeltaContext::bitsize_of start
    let ghost (num, enc, sgn) = (array_traits.num(), array_traits.enc(), array_traits.sgn());
    proof {
        broadcast use ubits_len; broadcast use sbits_len;
        assert forall|s: Seq<T>, k: int| #![trigger self.sz(nums(num, s), lens(enc, s), sgn, k)] 0 <= k < s.len() && delta_small(lens(enc, s)) implies
            nums(num, s).len() == s.len() && 0 <= mbn(nums(num, s), s.len() as int) <= 64 && enc(0, s[k]).len() <= 0x1000_0000_0000_0000 && lens(enc, s).len() == s.len()
            && lens(enc, s)[0] <= 0x1000_0000_0000_0000 && 0 <= lsum(lens(enc, s), s.len() as int) <= 0x1000_0000_0000_0000 by {
            delta_facts(num, enc, array_traits.canon(), sgn, s, k);
            assert(lens(enc, s)[0] <= 0x1000_0000_0000_0000);
        }
    }
//@ fn DeltaContext::write
    requires array_traits.delta(), array_traits.okay(), is_delta(array_traits.num(), array_traits.enc(), array_traits.canon(), array_traits.sgn()), (array_traits.shape())(*element),
        exists|s: Seq<T>, k: int| #![trigger old(self).wr(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k)] old(self).wr(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k) && 0 <= k < s.len() && s[k] == *element && delta_small(lens(array_traits.enc(), s)) && old(writer)@.len() + delta_enc(array_traits.num(), array_traits.enc(), s, k).len() <= u64::MAX,
    ensures
        (array_traits.valid())(*element) ==> res is Ok,
        res is Ok ==> forall|s: Seq<T>, k: int| #![trigger old(self).wr(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k)] old(self).wr(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k) && 0 <= k < s.len() && s[k] == *element && delta_small(lens(array_traits.enc(), s)) ==>
            final(self).wr(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k + 1) && final(writer)@ == old(writer)@ + delta_enc(array_traits.num(), array_traits.enc(), s, k),
//@ at DeltaContext::write start
    let ghost (num, enc, sgn) = (array_traits.num(), array_traits.enc(), array_traits.sgn());
    let ghost w0 = writer@;
    proof {
        broadcast use ubits_len; broadcast use sbits_len;
        assert forall|s: Seq<T>, k: int| #![trigger self.wr(nums(num, s), lens(enc, s), sgn, k)] 0 <= k < s.len() && delta_small(lens(enc, s)) implies
            nums(num, s).len() == s.len() && 0 <= mbn(nums(num, s), s.len() as int) <= 64 && enc(0, s[k]).len() <= 0x1000_0000_0000_0000 && lens(enc, s).len() == s.len()
            && lens(enc, s)[0] <= 0x1000_0000_0000_0000 && 0 <= lsum(lens(enc, s), s.len() as int) <= 0x1000_0000_0000_0000
            && nums(num, s)[k] == num(s[k])
            && (mbn(nums(num, s), s.len() as int) <= 62 && k > 0 ==> -0x4000_0000_0000_0000 < nums(num, s)[k] - nums(num, s)[k - 1] < 0x4000_0000_0000_0000)
            && (k == 0 && delta_packed(nums(num, s), lens(enc, s)) ==> w0 + seq![true] + ubits(mbn(nums(num, s), s.len() as int) as u64, 6) + enc(0, s[0]) == w0 + delta_enc(num, enc, s, k))
            && (k == 0 && !delta_packed(nums(num, s), lens(enc, s)) ==> w0 + seq![false] + Seq::<bool>::empty() + enc(0, s[0]) == w0 + delta_enc(num, enc, s, k))
            && w0 + Seq::<bool>::empty() == w0
        by {
            delta_facts(num, enc, array_traits.canon(), sgn, s, k);
            assert(lens(enc, s)[0] <= 0x1000_0000_0000_0000);
            if k == 0 {
                assert(w0 + seq![true] + ubits(mbn(nums(num, s), s.len() as int) as u64, 6) + enc(0, s[0]) =~= w0 + (seq![true] + ubits(mbn(nums(num, s), s.len() as int) as u64, 6) + enc(0, s[0])));
                assert(w0 + seq![false] + Seq::<bool>::empty() + enc(0, s[0]) =~= w0 + (seq![false] + Seq::<bool>::empty() + enc(0, s[0])));
            }
            assert(w0 + Seq::<bool>::empty() =~= w0);
        }
    }
//@ fn DeltaContext::read
    requires array_traits.delta(), array_traits.okay(), is_delta(array_traits.num(), array_traits.enc(), array_traits.canon(), array_traits.sgn()), old(reader).wf(), old(self).readable(),
    ensures
        final(reader).after(old(reader)), final(self).readable(),
        forall|s: Seq<T>, k: int| #![trigger old(self).rd(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k)] old(self).rd(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k) && 0 <= k < s.len() && all_of(array_traits.valid(), s) && all_of(array_traits.shape(), s) && delta_small(lens(array_traits.enc(), s))
            && (array_traits.blank())(*old(value), s[k]) && old(reader).sees(delta_enc(array_traits.num(), array_traits.enc(), s, k)) ==>
            res is Ok && *final(value) == s[k] && final(self).rd(nums(array_traits.num(), s), lens(array_traits.enc(), s), array_traits.sgn(), k + 1) && final(reader).at(old(reader), delta_enc(array_traits.num(), array_traits.enc(), s, k).len() as int),
//@ at DeltaContext::read start
    let ghost (num, enc, sgn) = (array_traits.num(), array_traits.enc(), array_traits.sgn());
    proof {
        broadcast use ubits_len; broadcast use sbits_len;
        assert forall|s: Seq<T>, k: int| #![trigger self.rd(nums(num, s), lens(enc, s), sgn, k)] 0 <= k < s.len() && delta_small(lens(enc, s)) && all_of(array_traits.valid(), s) && all_of(array_traits.shape(), s) && reader.sees(delta_enc(num, enc, s, k)) implies
            nums(num, s).len() == s.len() && 0 <= mbn(nums(num, s), s.len() as int) <= 64 && lens(enc, s).len() == s.len()
            && nums(num, s)[k] == num(s[k]) && num_range(sgn, num(s[k])) && (array_traits.valid())(s[k]) && (array_traits.shape())(s[k])
            && (mbn(nums(num, s), s.len() as int) <= 62 && k > 0 ==> sfits((nums(num, s)[k] - nums(num, s)[k - 1]) as i64, mbn(nums(num, s), s.len() as int) + 1) && -0x4000_0000_0000_0000 < nums(num, s)[k] - nums(num, s)[k - 1] < 0x4000_0000_0000_0000)
            && (mbn(nums(num, s), s.len() as int) == 0 && k > 0 ==> nums(num, s)[k] == nums(num, s)[k - 1])
            && (k == 0 && delta_packed(nums(num, s), lens(enc, s)) ==> reader.sees(seq![true] + ubits(mbn(nums(num, s), s.len() as int) as u64, 6)) && (forall|q: &BitReader| #![trigger q.sees(enc(0, s[0]))] q.at(&*reader, 7) ==> q.sees(enc(0, s[0]))))
            && (k == 0 && !delta_packed(nums(num, s), lens(enc, s)) ==> reader.sees(seq![false]) && (forall|q: &BitReader| #![trigger q.sees(enc(0, s[0]))] q.at(&*reader, 1) ==> q.sees(enc(0, s[0]))))
        by {
            delta_facts(num, enc, array_traits.canon(), sgn, s, k);
            if k == 0 {
                let m = mbn(nums(num, s), s.len() as int) as u64;
                assert(seq![false] + Seq::<bool>::empty() =~= seq![false]);
                if delta_packed(nums(num, s), lens(enc, s)) {
                    sees_split(reader, seq![true] + ubits(m, 6), enc(0, s[0]));
                } else {
                    sees_split(reader, seq![false], enc(0, s[0]));
                }
            }
        }
    }
