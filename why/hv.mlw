(** Memory and arithmetic model used by the translation.  No axioms: every `val' is a total specification of a C++
    primitive (bounds checked subscript, unsigned arithmetic that must not wrap, ...). *)
module HV
  use export int.Int
  use export int.MinMax
  use map.Map
  use export real.RealInfix
  use export real.FromInt
  use export int.EuclideanDivision

  exception Hg_error
  exception Cont

  type vec 'a = { elts: int -> 'a; len: int }
  function ([]) [@inline:trivial] (v: vec 'a) (i: int) : 'a = v.elts i
  function vat [@inline:trivial] (v: vec 'a) (i: int) : 'a = v.elts i
  function vset [@inline:trivial] (v: vec 'a) (i: int) (x: 'a) : vec 'a = { elts = Map.set v.elts i x; len = v.len }
  function vpush [@inline:trivial] (v: vec 'a) (x: 'a) : vec 'a = { elts = Map.set v.elts v.len x; len = v.len + 1 }
  type queue 'a = { qv: vec 'a; qh: int }
  type pair 'a 'b = { fst: 'a; snd: 'b }

  (** x is one of the elements of v *)
  predicate occurs (v: vec int) (x: int) = exists k. 0 <= k < v.len /\ v.elts k = x

  val vget (v: vec 'a) (i: int) : 'a
    requires { [@expl:subscript in bounds] 0 <= i < v.len } ensures { result = v.elts i }
  val vset (v: vec 'a) (i: int) (x: 'a) : vec 'a
    requires { [@expl:subscript in bounds] 0 <= i < v.len } ensures { result = vset v i x }
  val vpush (v: vec 'a) (x: 'a) : vec 'a ensures { result = vpush v x }
  val vpop (v: vec 'a) : vec 'a requires { [@expl:pop of a non empty container] 0 < v.len } ensures { result = { elts = v.elts; len = v.len - 1 } }
  val vtop (v: vec 'a) : 'a requires { [@expl:access to a non empty container] 0 < v.len } ensures { result = v.elts (v.len - 1) }
  val vclear (v: vec 'a) : vec 'a ensures { result = { elts = v.elts; len = 0 } }
  val vec_empty () : vec 'a ensures { result.len = 0 }
  (** value-initialised / filled containers *)
  val vec_const (n: int) (x: 'a) : vec 'a requires { [@expl:size not negative] 0 <= n } ensures { result.len = n /\ forall i. result.elts i = x }
  (** uninitialised contents: nothing is known *)
  val vec_any (n: int) : vec 'a requires { [@expl:size not negative] 0 <= n } ensures { result.len = n }
  val vresize (v: vec 'a) (n: int) (x: 'a) : vec 'a requires { [@expl:size not negative] 0 <= n }
    ensures { result.len = n /\ (forall i. 0 <= i < v.len -> result.elts i = v.elts i) /\ (forall i. v.len <= i -> result.elts i = x) }
  val vslice (v: vec 'a) (b e: int) : vec 'a requires { [@expl:range in bounds] 0 <= b <= e <= v.len }
    ensures { result.len = e - b /\ forall i. 0 <= i < e - b -> result.elts i = v.elts (b + i) }
  val vblit (v: vec 'a) (b e: int) (s: vec 'a) : vec 'a requires { [@expl:range in bounds] 0 <= b <= e <= v.len } requires { [@expl:same shape] s.len = e - b }
    ensures { result.len = v.len /\ (forall i. b <= i < e -> result.elts i = s.elts (i - b)) /\ (forall i. i < b \/ e <= i -> result.elts i = v.elts i) }
  val vfill (v: vec 'a) (b e: int) (x: 'a) : vec 'a requires { [@expl:range in bounds] 0 <= b <= e <= v.len }
    ensures { result.len = v.len /\ (forall i. b <= i < e -> result.elts i = x) /\ (forall i. i < b \/ e <= i -> result.elts i = v.elts i) }
  val vindex (v: vec 'a) (ix: vec int) : vec 'a requires { [@expl:indices in bounds] forall i. 0 <= i < ix.len -> 0 <= ix.elts i < v.len }
    ensures { result.len = ix.len /\ forall i. 0 <= i < ix.len -> result.elts i = v.elts (ix.elts i) }
  val vec_range (b e: int) : vec int requires { [@expl:arange bounds] b <= e } ensures { result.len = e - b /\ (forall i. result.elts i = b + i) /\ forall x. b <= x < e -> occurs result x }
  val veq_i (a b: vec int) : vec bool requires { [@expl:same shape] a.len = b.len } ensures { result.len = a.len /\ forall i. 0 <= i < a.len -> (result.elts i = True <-> a.elts i = b.elts i) }
  val veq_r (a b: vec real) : vec bool requires { [@expl:same shape] a.len = b.len } ensures { result.len = a.len /\ forall i. 0 <= i < a.len -> (result.elts i = True <-> a.elts i = b.elts i) }

  (** point-wise defined contents (xtensor element-wise expressions); the contents are given by a ghost function *)
  val vec_pw (n: int) (ghost f: int -> 'a) : vec 'a requires { [@expl:size not negative] 0 <= n } ensures { result.len = n /\ forall i. 0 <= i < n -> result.elts i = f i }
  (** std::stable_sort: the result is a permutation of the input, sorted and stable, provided the comparator is a strict weak order *)
  val vsort (v: vec 'a) (ghost lt: 'a -> 'a -> bool) : (r: vec 'a, ghost s: int -> int, ghost inv: int -> int)
    requires { [@expl:comparator irreflexive] forall x. not lt x x }
    requires { [@expl:comparator negatively transitive] forall x y z. lt x z -> lt x y \/ lt y z }
    ensures { r.len = v.len }
    ensures { forall k. 0 <= k < v.len -> 0 <= s k < v.len /\ r.elts k = v.elts (s k) }
    ensures { forall k. 0 <= k < v.len -> inv (s k) = k }
    ensures { forall m. 0 <= m < v.len -> 0 <= inv m < v.len /\ s (inv m) = m }
    ensures { forall k l. 0 <= k < l < v.len -> not lt (r.elts l) (r.elts k) }
    ensures { forall k l. 0 <= k < l < v.len -> not lt (r.elts k) (r.elts l) -> s k < s l }

  (** std::sort: as above without stability *)
  val vsort_any (v: vec 'a) (ghost lt: 'a -> 'a -> bool) : (r: vec 'a, ghost s: int -> int, ghost inv: int -> int)
    requires { [@expl:comparator irreflexive] forall x. not lt x x }
    requires { [@expl:comparator negatively transitive] forall x y z. lt x z -> lt x y \/ lt y z }
    ensures { r.len = v.len }
    ensures { forall k. 0 <= k < v.len -> 0 <= s k < v.len /\ r.elts k = v.elts (s k) }
    ensures { forall k. 0 <= k < v.len -> inv (s k) = k }
    ensures { forall m. 0 <= m < v.len -> 0 <= inv m < v.len /\ s (inv m) = m }
    ensures { forall k l. 0 <= k < l < v.len -> not lt (r.elts l) (r.elts k) }

  (** the same for integer elements; std::stable_sort: the result is a permutation of the input, sorted and stable, provided the comparator is a strict weak order *)
  val vsort_i (v: vec int) (ghost lt: int -> int -> bool) : (r: vec int, ghost s: int -> int, ghost inv: int -> int)
    requires { [@expl:comparator irreflexive] forall x. not lt x x }
    requires { [@expl:comparator negatively transitive] forall x y z. lt x z -> lt x y \/ lt y z }
    ensures { r.len = v.len }
    ensures { forall k. 0 <= k < v.len -> 0 <= s k < v.len /\ r.elts k = v.elts (s k) }
    ensures { forall k. 0 <= k < v.len -> inv (s k) = k }
    ensures { forall m. 0 <= m < v.len -> 0 <= inv m < v.len /\ s (inv m) = m }
    ensures { forall k l. 0 <= k < l < v.len -> not lt (r.elts l) (r.elts k) }
    ensures { forall x. occurs r x <-> occurs v x }
    ensures { forall k l. 0 <= k < l < v.len -> not lt (r.elts k) (r.elts l) -> s k < s l }

  (** std::sort: as above without stability *)
  val vsort_any_i (v: vec int) (ghost lt: int -> int -> bool) : (r: vec int, ghost s: int -> int, ghost inv: int -> int)
    requires { [@expl:comparator irreflexive] forall x. not lt x x }
    requires { [@expl:comparator negatively transitive] forall x y z. lt x z -> lt x y \/ lt y z }
    ensures { r.len = v.len }
    ensures { forall k. 0 <= k < v.len -> 0 <= s k < v.len /\ r.elts k = v.elts (s k) }
    ensures { forall k. 0 <= k < v.len -> inv (s k) = k }
    ensures { forall m. 0 <= m < v.len -> 0 <= inv m < v.len /\ s (inv m) = m }
    ensures { forall k l. 0 <= k < l < v.len -> not lt (r.elts l) (r.elts k) }
    ensures { forall x. occurs r x <-> occurs v x }

  (** std::find / vector::erase(position) *)
  val vfind (v: vec 'a) (b e: int) (x: 'a) : int requires { [@expl:range in bounds] 0 <= b <= e <= v.len }
    ensures { b <= result <= e /\ (forall i. b <= i < result -> v.elts i <> x) /\ (result < e -> v.elts result = x) }
  val verase (v: vec 'a) (k: int) : vec 'a requires { [@expl:position in bounds] 0 <= k < v.len } 
    ensures { result.len = v.len - 1 /\ forall i. result.elts i = (if i < k then v.elts i else v.elts (i + 1)) }

  val vinsert (v: vec 'a) (k: int) (x: 'a) : vec 'a requires { [@expl:position in bounds] 0 <= k <= v.len }
    ensures { result.len = v.len + 1 /\ forall i. result.elts i = (if i < k then v.elts i else if i = k then x else v.elts (i - 1)) }

  (** std::priority_queue::push: elements kept in increasing order (top: the last one), the position among equivalent elements is unspecified *)
  val pq_push (v: vec 'a) (x: 'a) (ghost lt: 'a -> 'a -> bool) : (r: vec 'a, ghost k: int)
    requires { [@expl:priority queue in order] forall i j. 0 <= i < j < v.len -> not lt (v.elts j) (v.elts i) }
    ensures { 0 <= k <= v.len /\ r.len = v.len + 1 /\ forall i. r.elts i = (if i < k then v.elts i else if i = k then x else v.elts (i - 1)) }
    ensures { (forall i. 0 <= i < k -> not lt x (v.elts i)) /\ forall i. k <= i < v.len -> not lt (v.elts i) x }

  val queue_empty () : queue 'a ensures { result.qh = 0 /\ result.qv.len = 0 }
  val qpush (q: queue 'a) (x: 'a) : queue 'a ensures { result = { qv = vpush q.qv x; qh = q.qh } }
  val qpop (q: queue 'a) : queue 'a requires { [@expl:pop of a non empty queue] q.qh < q.qv.len } ensures { result = { qv = q.qv; qh = q.qh + 1 } }
  val qfront (q: queue 'a) : 'a requires { [@expl:front of a non empty queue] q.qh < q.qv.len } ensures { result = q.qv.elts q.qh }

  val sub_unsigned (x y: int) : int requires { [@expl:unsigned subtraction does not wrap] y <= x } ensures { result = x - y }
  val to_unsigned (x: int) : int requires { [@expl:conversion to unsigned of a non negative value] 0 <= x } ensures { result = x }
  val narrow32 (x: int) : int requires { [@expl:fits in 32 bits] - 2147483648 <= x <= 2147483647 } ensures { result = x }
  val narrowu32 (x: int) : int requires { [@expl:fits in 32 bits] 0 <= x <= 4294967295 } ensures { result = x }
  val narrow16 (x: int) : int requires { [@expl:fits in 16 bits] - 32768 <= x <= 32767 } ensures { result = x }
  val narrowu16 (x: int) : int requires { [@expl:fits in 16 bits] 0 <= x <= 65535 } ensures { result = x }
  val narrow8 (x: int) : int requires { [@expl:fits in 8 bits] - 128 <= x <= 127 } ensures { result = x }
  val narrowu8 (x: int) : int requires { [@expl:fits in 8 bits] 0 <= x <= 255 } ensures { result = x }
  val c_div (x y: int) : int requires { [@expl:division by a positive number] 0 < y }
    ensures { 0 <= x -> result = div x y } ensures { x <= 0 -> result = - (div (- x) y) }
  (** bitwise operators on two bit values *)
  function bit_or (x y: int) : int = 2 * (if x >= 2 || y >= 2 then 1 else 0) + (if x = 1 || x = 3 || y = 1 || y = 3 then 1 else 0)
  function bit_and (x y: int) : int = 2 * (if x >= 2 && y >= 2 then 1 else 0) + (if (x = 1 || x = 3) && (y = 1 || y = 3) then 1 else 0)
  val c_or (x y: int) : int requires { [@expl:two bit operands] 0 <= x <= 3 /\ 0 <= y <= 3 } ensures { result = bit_or x y }
  val c_and (x y: int) : int requires { [@expl:two bit operands] 0 <= x <= 3 /\ 0 <= y <= 3 } ensures { result = bit_and x y }
  (** shifts: powers of two *)
  function pow2 int : int
  val ghost pow2_def (k: int) : unit ensures { pow2 0 = 1 } ensures { 0 <= k -> pow2 (k + 1) = 2 * pow2 k }
  val c_shl (x y: int) : int requires { [@expl:shift amount in range] 0 <= y < 64 } ensures { result = x * pow2 y }
  (** number of leading zero bits of a positive 64 bit value *)
  val c_clz64 (x: int) : int requires { [@expl:argument of clz not zero] 0 < x } ensures { 0 <= result <= 63 /\ pow2 (63 - result) <= x < pow2 (64 - result) }
  (** first position of a smallest element *)
  val vmin_element_i (v: vec int) (b e: int) : int requires { [@expl:range in bounds] 0 <= b <= e <= v.len }
    ensures { if b < e then b <= result < e /\ (forall i. b <= i < e -> v.elts result <= v.elts i) /\ forall i. b <= i < result -> v.elts result < v.elts i else result = e }
  val c_mod (x y: int) : int requires { [@expl:modulo by a positive number] 0 < y } ensures { 0 <= x -> result = mod x y } ensures { x < 0 -> result = - (mod (- x) y) }
  val c_abs (x: int) : int ensures { result = (if x >= 0 then x else - x) }
  val i_min (x y: int) : int ensures { result = (if y < x then y else x) }
  val i_max (x y: int) : int ensures { result = (if x < y then y else x) }

  val r_eq (x y: real) : bool ensures { result <-> x = y }
  val r_lt (x y: real) : bool ensures { result <-> x <. y }
  val r_le (x y: real) : bool ensures { result <-> x <=. y }
  val r_gt (x y: real) : bool ensures { result <-> x >. y }
  val r_ge (x y: real) : bool ensures { result <-> x >=. y }
  (** product of two computed values: a function of which only commutativity and the neutral element are stated *)
  function rmul (x y: real) : real
  val r_mul (x y: real) : real ensures { result = rmul x y } ensures { result = rmul y x } ensures { (x = 1.0 -> result = y) /\ (y = 1.0 -> result = x) }
  val r_div (x y: real) : real requires { [@expl:division by zero] y <> 0.0 } ensures { result = x /. y }
  val r_min (x y: real) : real ensures { result = (if y <. x then y else x) }
  val r_max (x y: real) : real ensures { result = (if x <. y then y else x) }
  val r_sqrt (x: real) : real ensures { forall t: real. x = rmul t t -> result = (if t >=. 0.0 then t else -. t) }
  val r_abs (x: real) : real ensures { result = (if x >=. 0.0 then x else -. x) }
  val r_of_int (x: int) : real ensures { result = from_int x }
  val b_eq (x y: bool) : bool ensures { result <-> (x <-> y) }
  (** xt::amax over a whole array *)
  val vamax_i (v: vec int) : int requires { [@expl:reduction of a non empty array] 0 < v.len } ensures { (exists k. 0 <= k < v.len /\ v.elts k = result) /\ forall k. 0 <= k < v.len -> v.elts k <= result }
  (** xt::amax over a whole array *)
  val vamax_r (v: vec real) : real requires { [@expl:reduction of a non empty array] 0 < v.len } ensures { (exists k. 0 <= k < v.len /\ v.elts k = result) /\ forall k. 0 <= k < v.len -> v.elts k <=. result }
  (** xt::amin over a whole array *)
  val vamin_i (v: vec int) : int requires { [@expl:reduction of a non empty array] 0 < v.len } ensures { (exists k. 0 <= k < v.len /\ v.elts k = result) /\ forall k. 0 <= k < v.len -> v.elts k >= result }
  (** xt::amin over a whole array *)
  val vamin_r (v: vec real) : real requires { [@expl:reduction of a non empty array] 0 < v.len } ensures { (exists k. 0 <= k < v.len /\ v.elts k = result) /\ forall k. 0 <= k < v.len -> v.elts k >=. result }
  val b_and (x y: bool) : bool ensures { result <-> (x /\ y) }
  val b_or (x y: bool) : bool ensures { result <-> (x \/ y) }
  (** numeric_limits<double>::max()/lowest(): a pair of values about which only what a contract requires is known *)
  constant c_real_max : real
  constant c_real_lowest : real
  val real_max () : real ensures { result = c_real_max }
  (** numeric_limits<double>::min(): the smallest positive number *)
  constant c_real_tiny : real
  val real_tiny () : real ensures { result = c_real_tiny /\ result >. 0.0 }
  val real_lowest () : real ensures { result = c_real_lowest }
end
