UF = 'hg::union_find_internal::union_find'
short(UF, 'uf')
theory('uf', '''
predicate uf_inv (u: uf) (cls h: int -> int) =
  0 <= u.uf_parent.len = u.uf_rank.len /\\
  forall i. 0 <= i < u.uf_parent.len ->
    0 <= u.uf_parent[i] < u.uf_parent.len /\\ 0 <= cls i < u.uf_parent.len /\\ u.uf_parent[cls i] = cls i /\\
    cls u.uf_parent[i] = cls i /\\ (u.uf_parent[i] = i -> cls i = i) /\\ h i <= h (cls i) /\\
    (u.uf_parent[i] <> i -> h i < h u.uf_parent[i])
predicate uf_wf (u: uf) = exists cls h. uf_inv u cls h
(** classes after merging the classes of i and j into r *)
function uf_merge (cls: int -> int) (i j r: int) : int -> int = fun k -> if cls k = i || cls k = j then r else cls k
''', recs=['hg::union_find_internal::union_find<long>'])

fn(UF + '::union_find', 'uf_new', sig=r'unsigned long', use=['uf'],
   ensures=[('n singleton classes', 'result.uf_parent.len = size /\\ uf_inv result (fun k -> k) (fun _ -> 0)')],
   loops={1: dict(inv=['0 <= i <= this_parent.len', 'forall k. 0 <= k < i -> this_parent[k] = k', 'this_parent.len = size'])})
fn(UF + '::make_set', 'uf_make_set', use=['uf'], requires=['uf_wf this'],
   ensures=[('fresh element', 'result = (old this).uf_parent.len /\\ this.uf_parent.len = result + 1'),
            ('new singleton class, others unchanged', 'forall cls h. uf_inv (old this) cls h -> uf_inv this (fun k -> if k = result then k else cls k) h')])
fn(UF + '::find', 'uf_find', use=['uf'], requires=['uf_wf this', '0 <= element < this.uf_parent.len'],
   ensures=[('result is the canonical element', 'forall cls h. uf_inv (old this) cls h -> result = cls element'),
            ('partition unchanged', 'this.uf_parent.len = (old this).uf_parent.len /\\ forall cls h. uf_inv (old this) cls h -> uf_inv this cls h')],
   at={'entry': ['let ghost cls0, h0 = any (int -> int, int -> int) ensures { let (c, h) = result in uf_inv this c h } in', 'let ghost u0 = this in']},
   loops={1: dict(inv=['0 <= i < this.uf_parent.len', 'forall cls h. uf_inv u0 cls h -> cls i = cls element'], var='h0 (cls0 i) - h0 i'),
          2: dict(inv=['0 <= element < this.uf_parent.len', '0 <= i < this.uf_parent.len', 'uf_inv this cls0 h0', 'this.uf_parent.len = u0.uf_parent.len', 'forall cls h. uf_inv u0 cls h -> uf_inv this cls h /\\ cls element = i'], var='h0 (cls0 element) - h0 element')})
fn(UF + '::link', 'uf_link', use=['uf'],
   requires=['uf_wf this', '0 <= i < this.uf_parent.len', '0 <= j < this.uf_parent.len', 'this.uf_parent[i] = i', 'this.uf_parent[j] = j'],
   ensures=[('result is one of the two', 'result = i \\/ result = j'),
            ('classes merged', 'this.uf_parent.len = (old this).uf_parent.len /\\ forall cls h. uf_inv (old this) cls h -> '
             'uf_inv this (uf_merge cls i j result) (fun k -> if cls k = result then h k + (if h i >= h j then h i - h j else h j - h i) + 1 else h k)')])
prop('C01', ['uf_new', 'uf_make_set', 'uf_find', 'uf_link'], harness='C01.cpp')
