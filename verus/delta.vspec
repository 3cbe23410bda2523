// ======================= array traits and delta packing =======================
//@ text
/// the bits element i takes at position p
pub type ElemFn = spec_fn(int, int) -> Bits;
pub open spec fn nums<T>(num: spec_fn(T) -> int, s: Seq<T>) -> Seq<int> { s.map_values(num) }
pub open spec fn lens<T>(enc: spec_fn(int, T) -> Bits, s: Seq<T>) -> Seq<int> { s.map_values(|v: T| enc(0, v).len() as int) }
pub open spec fn num_range(sgn: bool, x: int) -> bool {
    if sgn { -0x8000_0000_0000_0000 <= x < 0x8000_0000_0000_0000 } else { 0 <= x < 0x1_0000_0000_0000_0000 }
}
/// what delta packing relies on: elements are integers, encoded independently of their position, and read back exactly
pub open spec fn is_delta<T>(num: spec_fn(T) -> int, enc: spec_fn(int, T) -> Bits, canon: spec_fn(T) -> T, sgn: bool) -> bool {
    &&& forall|v: T| num_range(sgn, #[trigger] num(v))
    &&& forall|p: int, v: T| #[trigger] enc(p, v) == enc(0, v)
    &&& forall|v: T| #[trigger] canon(v) == v
}
/// every element of s satisfies f
pub open spec fn all_of<T>(f: spec_fn(T) -> bool, s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] f(s[i]) }

//@ source crates/zserio/src/ztype/array_traits/delta_context.rs only=MAX_BIT_NUMBER_LIMIT,MAX_BIT_NUMBER_BITS,DeltaContext
//@ text
impl DeltaContext {
    /// initialised with exactly the elements s
    pub open spec fn ini(&self, nums: Seq<int>, lens: Seq<int>, sgn: bool) -> bool {
        let n = nums.len() as int;
        &&& !self.processing_started
        &&& lens.len() == n
        &&& self.num_elements == n
        &&& self.unpacked_size == lsum(lens, n)
        &&& self.init_started == (n > 0)
        &&& n > 0 ==> self.first_element_size == lens[0]
        &&& self.max_bit_number == mbn(nums, n)
        &&& self.is_packed == (n >= 2 && mbn(nums, n) <= 62)
        &&& n > 0 && mbn(nums, n) <= 62 ==> ival(sgn, self.previous_element) == nums[n - 1]
        &&& n == 0 ==> self.previous_element == 0 && self.first_element_size == 0
    }
    /// k elements sized
    pub open spec fn sz(&self, nums: Seq<int>, lens: Seq<int>, sgn: bool, k: int) -> bool {
        if k == 0 { self.ini(nums, lens, sgn) } else {
            &&& self.processing_started
            &&& self.is_packed == delta_packed(nums, lens)
            &&& self.is_packed ==> self.max_bit_number == mbn(nums, nums.len() as int)
        }
    }
    /// k elements written
    pub open spec fn wr(&self, nums: Seq<int>, lens: Seq<int>, sgn: bool, k: int) -> bool {
        &&& self.sz(nums, lens, sgn, k)
        &&& k > 0 && self.is_packed && self.max_bit_number > 0 ==> ival(sgn, self.previous_element) == nums[k - 1]
    }
    /// k elements read
    pub open spec fn rd(&self, nums: Seq<int>, lens: Seq<int>, sgn: bool, k: int) -> bool {
        if k == 0 { !self.processing_started } else {
            &&& self.processing_started
            &&& self.is_packed == delta_packed(nums, lens)
            &&& self.is_packed ==> self.max_bit_number == mbn(nums, nums.len() as int)
            &&& ival(sgn, self.previous_element) == nums[k - 1]
        }
    }
    /// usable for reading arbitrary input
    pub open spec fn readable(&self) -> bool { self.max_bit_number <= 63 }
}
pub open spec fn lsum(lens: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { lsum(lens, n - 1) + lens[n - 1] } }
pub open spec fn adiff(nums: Seq<int>, i: int) -> int { if nums[i] >= nums[i - 1] { nums[i] - nums[i - 1] } else { nums[i - 1] - nums[i] } }
/// number of bits of the largest distance between neighbours; stops growing once above the limit of 62
pub open spec fn mbn(nums: Seq<int>, n: int) -> int decreases n {
    if n <= 1 { 0 } else {
        let m = mbn(nums, n - 1);
        if m > 62 || blen(adiff(nums, n - 1)) <= m { m } else { blen(adiff(nums, n - 1)) }
    }
}
/// the decision of the specification: packing must make the array smaller
pub open spec fn delta_packed(nums: Seq<int>, lens: Seq<int>) -> bool {
    let n = nums.len() as int; let m = mbn(nums, n);
    n >= 2 && m <= 62 && 1 + 6 + lens[0] + (n - 1) * (if m > 0 { m + 1 } else { 0 }) < 1 + lsum(lens, n)
}
/// bits of element k of a packed array
pub open spec fn delta_enc<T>(num: spec_fn(T) -> int, enc: spec_fn(int, T) -> Bits, s: Seq<T>, k: int) -> Bits {
    let ns = nums(num, s); let m = mbn(ns, ns.len() as int); let d = delta_packed(ns, lens(enc, s));
    if k == 0 { seq![d] + (if d { ubits(m as u64, 6) } else { Seq::empty() }) + enc(0, s[0]) }
    else if !d { enc(0, s[k]) }
    else if m > 0 { sbits((ns[k] - ns[k - 1]) as i64, m + 1) }
    else { Seq::empty() }
}
/// sizes far from overflow
pub open spec fn delta_small(lens: Seq<int>) -> bool {
    lens.len() <= 0x100_0000_0000_0000 && (forall|n: int| 0 <= n <= lens.len() ==> 0 <= #[trigger] lsum(lens, n) <= 0x1000_0000_0000_0000)
        && (forall|i: int| 0 <= i < lens.len() ==> 0 <= #[trigger] lens[i] <= 0x1000_0000_0000_0000)
}
pub proof fn mbn_range(nums: Seq<int>, sgn: bool, n: int)
    requires 0 <= n <= nums.len(), forall|i: int| 0 <= i < n ==> num_range(sgn, #[trigger] nums[i]),
    ensures 0 <= mbn(nums, n) <= 64,
    decreases n
{
    if n > 1 {
        mbn_range(nums, sgn, n - 1);
        pow2_vals();
        blen_bounds(adiff(nums, n - 1));
        blen_least(adiff(nums, n - 1), 64);
    }
}
pub proof fn mbn_bounds(nums: Seq<int>, n: int, i: int)
    requires 1 <= i < n <= nums.len(), mbn(nums, n) <= 62,
    ensures blen(adiff(nums, i)) <= mbn(nums, n), adiff(nums, i) < pow2(mbn(nums, n)), mbn(nums, n) >= 0,
    decreases n
{
    if i < n - 1 { mbn_bounds(nums, n - 1, i); } 
    blen_bounds(adiff(nums, i));
    pow2_mono(blen(adiff(nums, i)), mbn(nums, n));
}
pub proof fn seqs_push<T>(num: spec_fn(T) -> int, enc: spec_fn(int, T) -> Bits, s: Seq<T>, e: T)
    ensures nums(num, s.push(e)) == nums(num, s).push(num(e)), lens(enc, s.push(e)) == lens(enc, s).push(enc(0, e).len() as int),
{
    assert(nums(num, s.push(e)) =~= nums(num, s).push(num(e)));
    assert(lens(enc, s.push(e)) =~= lens(enc, s).push(enc(0, e).len() as int));
}
pub proof fn prefix_push(nums: Seq<int>, x: int, n: int)
    requires 0 <= n <= nums.len(),
    ensures mbn(nums.push(x), n) == mbn(nums, n), lsum(nums.push(x), n) == lsum(nums, n),
    decreases n
{
    if n > 0 { prefix_push(nums, x, n - 1); }
}
//@ source crates/zserio/src/ztype/array_traits/packing_context_node.rs only=PackingContextNode
//@ source crates/zserio/src/ztype/array_traits/array_trait.rs
//@ impl ArrayTrait
    /// may be used at all (sizes of bit fields in range, ...)
    spec fn okay(&self) -> bool;
    /// encoding of an element at a position
    spec fn enc(&self) -> spec_fn(int, T) -> Bits;
    /// internally consistent, so that it can be sized and written
    spec fn shape(&self) -> spec_fn(T) -> bool;
    /// in the range of the type
    spec fn valid(&self) -> spec_fn(T) -> bool;
    /// what is read back after writing it
    spec fn canon(&self) -> spec_fn(T) -> T;
    /// a blank object which the given one can be read into
    spec fn blank(&self) -> spec_fn(T, T) -> bool;
    spec fn constant(&self) -> bool;
    spec fn num(&self) -> spec_fn(T) -> int;
    spec fn sgn(&self) -> bool;
    /// elements are packed one by one, as deltas
    spec fn delta(&self) -> bool;
    /// elements can be packed at all
    spec fn packs(&self) -> bool;
    spec fn psmall(&self) -> spec_fn(Seq<T>) -> bool;
    spec fn preadable(&self) -> spec_fn(PackingContextNode) -> bool;
    spec fn psz(&self) -> spec_fn(PackingContextNode, Seq<T>, int) -> bool;
    spec fn pwr(&self) -> spec_fn(PackingContextNode, Seq<T>, int) -> bool;
    spec fn prd(&self) -> spec_fn(PackingContextNode, Seq<T>, int) -> bool;
    spec fn penc(&self) -> spec_fn(Seq<T>, int, int) -> Bits;
//@ fn ArrayTrait::is_bitsizeof_constant
    ensures res ==> self.constant(), self.constant() && self.okay() ==> forall|p: int, q: int, v: T, w: T| #![trigger (self.enc())(p, v), (self.enc())(q, w)] (self.enc())(p, v).len() == (self.enc())(q, w).len(),
//@ fn ArrayTrait::needs_bitsizeof_position
//@ fn ArrayTrait::bitsize_of
    requires self.okay(), (self.shape())(*value), bit_position + (self.enc())(bit_position as int, *value).len() <= u64::MAX,
    ensures
        (self.valid())(*value) ==> res is Ok,
        res matches Ok(r) ==> r == (self.enc())(bit_position as int, *value).len(),
//@ fn ArrayTrait::initialize_offsets
    requires self.okay(), (self.shape())(*value), bit_position + (self.enc())(bit_position as int, *value).len() <= u64::MAX,
    ensures
        (self.valid())(*value) ==> res is Ok,
        res matches Ok(r) ==> r == bit_position + (self.enc())(bit_position as int, *value).len(),
//@ fn ArrayTrait::read
    requires self.okay(), old(reader).wf(),
    ensures
        final(reader).after(old(reader)),
        forall|v: T| #![trigger (self.enc())(old(reader).pos(), v)] (self.valid())(v) && (self.shape())(v) && (self.blank())(*old(value), v) && old(reader).sees((self.enc())(old(reader).pos(), v)) ==>
            res is Ok && *final(value) == (self.canon())(v) && final(reader).at(old(reader), (self.enc())(old(reader).pos(), v).len() as int),
//@ fn ArrayTrait::write
    requires self.okay(), (self.shape())(*value), old(writer)@.len() + (self.enc())(old(writer)@.len() as int, *value).len() <= u64::MAX,
    ensures
        (self.valid())(*value) ==> res is Ok,
        res is Ok ==> final(writer)@ == old(writer)@ + (self.enc())(old(writer)@.len() as int, *value),
//@ fn ArrayTrait::to_u64
    requires self.delta(),
    ensures ival(self.sgn(), res) == (self.num())(*value),
//@ fn ArrayTrait::from_u64
    requires self.delta(),
    ensures forall|v: T| #![trigger (self.num())(v)] (self.num())(v) == ival(self.sgn(), value) ==> res == v,
//@ fn ArrayTrait::abs_delta
    requires self.delta(),
    ensures res == if ival(self.sgn(), lhs) > ival(self.sgn(), rhs) { ival(self.sgn(), lhs) - ival(self.sgn(), rhs) } else { ival(self.sgn(), rhs) - ival(self.sgn(), lhs) },
//@ fn ArrayTrait::create_context
    requires self.packs(), self.okay(),
    ensures
        (self.preadable())(res),
        (self.psz())(res, Seq::empty(), 0), (self.pwr())(res, Seq::empty(), 0),
        forall|s: Seq<T>| #![trigger (self.prd())(res, s, 0)] (self.prd())(res, s, 0),
//@ fn ArrayTrait::init_context
    requires self.packs(), self.okay(), (self.shape())(*element),
        exists|s: Seq<T>| #![trigger (self.pwr())(*old(context_node), s, 0)] (self.pwr())(*old(context_node), s, 0) && (self.psmall())(s.push(*element)),
    ensures
        (self.valid())(*element) ==> res is Ok,
        res is Ok ==> forall|s: Seq<T>| #![trigger (self.pwr())(*old(context_node), s, 0)] (self.pwr())(*old(context_node), s, 0) && (self.psmall())(s.push(*element)) ==>
            (self.pwr())(*final(context_node), s.push(*element), 0) && (self.psz())(*final(context_node), s.push(*element), 0),
//@ fn ArrayTrait::bitsize_of_packed
    requires self.packs(), self.okay(), (self.shape())(*element),
        exists|s: Seq<T>, k: int| #![trigger (self.psz())(*old(context_node), s, k)] (self.psz())(*old(context_node), s, k) && 0 <= k < s.len() && s[k] == *element && (self.psmall())(s)
            && bit_position + (self.penc())(s, k, bit_position as int).len() <= u64::MAX,
    ensures
        (self.valid())(*element) ==> res is Ok,
        res matches Ok(r) ==> forall|s: Seq<T>, k: int| #![trigger (self.psz())(*old(context_node), s, k)] (self.psz())(*old(context_node), s, k) && 0 <= k < s.len() && s[k] == *element && (self.psmall())(s) ==>
            (self.psz())(*final(context_node), s, k + 1) && r == (self.penc())(s, k, bit_position as int).len(),
//@ fn ArrayTrait::initialize_offsets_packed
    requires self.delta(), self.packs(), self.okay(), (self.shape())(*element),
        exists|s: Seq<T>, k: int| #![trigger (self.psz())(*old(context_node), s, k)] (self.psz())(*old(context_node), s, k) && 0 <= k < s.len() && s[k] == *element && (self.psmall())(s)
            && bit_position + (self.penc())(s, k, bit_position as int).len() <= u64::MAX,
    ensures
        (self.valid())(*element) ==> res is Ok,
        res matches Ok(r) ==> forall|s: Seq<T>, k: int| #![trigger (self.psz())(*old(context_node), s, k)] (self.psz())(*old(context_node), s, k) && 0 <= k < s.len() && s[k] == *element && (self.psmall())(s) ==>
            (self.psz())(*final(context_node), s, k + 1) && r == bit_position + (self.penc())(s, k, bit_position as int).len(),
//@ fn ArrayTrait::write_packed
    requires self.packs(), self.okay(), (self.shape())(*element),
        exists|s: Seq<T>, k: int| #![trigger (self.pwr())(*old(context_node), s, k)] (self.pwr())(*old(context_node), s, k) && 0 <= k < s.len() && s[k] == *element && (self.psmall())(s)
            && old(writer)@.len() + (self.penc())(s, k, old(writer)@.len() as int).len() <= u64::MAX,
    ensures
        (self.valid())(*element) ==> res is Ok,
        res is Ok ==> forall|s: Seq<T>, k: int| #![trigger (self.pwr())(*old(context_node), s, k)] (self.pwr())(*old(context_node), s, k) && 0 <= k < s.len() && s[k] == *element && (self.psmall())(s) ==>
            (self.pwr())(*final(context_node), s, k + 1) && final(writer)@ == old(writer)@ + (self.penc())(s, k, old(writer)@.len() as int),
//@ fn ArrayTrait::read_packed
    requires self.packs(), self.okay(), old(reader).wf(), (self.preadable())(*old(context_node)),
    ensures
        final(reader).after(old(reader)), (self.preadable())(*final(context_node)),
        forall|s: Seq<T>, k: int| #![trigger (self.prd())(*old(context_node), s, k)]
            (self.prd())(*old(context_node), s, k) && 0 <= k < s.len() && all_of(self.valid(), s) && all_of(self.shape(), s) && (self.psmall())(s)
            && (self.blank())(*old(value), s[k]) && old(reader).sees((self.penc())(s, k, old(reader).pos())) ==>
            res is Ok && *final(value) == (self.canon())(s[k]) && (self.prd())(*final(context_node), s, k + 1) && final(reader).at(old(reader), (self.penc())(s, k, old(reader).pos()).len() as int),
