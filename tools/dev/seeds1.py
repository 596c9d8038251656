import sys; sys.path.insert(0, '/verif/tools/dev'); from mkcand import make
TH='include/higra/structure/tree_graph.hpp'; UFH='include/higra/structure/unionfind.hpp'; UGH='include/higra/structure/undirected_graph.hpp'
make('c01_a','C01',UFH,"""                while (parent[i] != i)
                    i = parent[i];""","""                while (parent[i] != i && rank[i] < rank[parent[i]])
                    i = parent[i];""",'an element that was linked as rank-equal root below another one whose rank did not grow: only after make_set on a structure created with elements','find stops too early','')
make('c01_b','C01',UFH,"""                if (rank[i] > rank[j])
                    std::swap(i, j);
                else if""","""                if (rank[i] > rank[j] + 1) {
                    parent[j] = i;
                    return j;
                }
                if (rank[i] > rank[j])
                    std::swap(i, j);
                else if""",'linking a class of rank at least two above the other one, given first','link returns the element which is no longer canonical','''  union_find u(5); auto a = u.link(0, 1), b = u.link(2, 3); auto c = u.link(a, b); auto d = u.link(c, 4); CHECK(u.find(d) == d); CHECK(u.find(4) == u.find(0)); CHECK(d == u.find(0));''','#include "higra/structure/unionfind.hpp"')
make('c01_c','C01',UFH,"""                while (parent[element] != i) {
                    idx_t tmp = element;
                    element = parent[element];
                    parent[tmp] = i;
                }""","""                idx_t last = i;
                while (parent[element] != i) {
                    idx_t tmp = element;
                    element = parent[element];
                    parent[tmp] = last;
                    last = tmp;
                }""",'a find on a node at depth at least four below its canonical element','path compression re-attaches a node to one of its former descendants, which separates or loops the class','''  union_find u(16); std::vector<index_t> r; for (int i = 0; i < 16; ++i) r.push_back(i);
  for (int k = 1; k < 16; k *= 2) for (int i = 0; i < 16; i += 2 * k) { index_t a = i, b = i + k; r[i] = u.link(r[a], r[b]); }
  alarm(10); for (int i = 0; i < 16; ++i) CHECK(u.find(i) == r[0]); for (int i = 15; i >= 0; --i) CHECK(u.find(i) == r[0]);''','#include "higra/structure/unionfind.hpp"\n#include <unistd.h>')
make('c02_a','C02',TH,"""                    if (num_children(v) == 0) {
                        hg_assert(num_leaves == v, "leaves nodes are not before internal nodes");
                        num_leaves++;
                    }""","""                    if (num_children(v) == 0) {
                        num_leaves++;
                    } else {
                        hg_assert(num_leaves <= v, "leaves nodes are not before internal nodes");
                    }""",'a parent array with a leaf after an internal node','leaf after internal node is accepted','''  array_1d<index_t> p{2, 2, 4, 4, 4}; bool thrown = false; try { tree t(p); } catch (std::exception &) { thrown = true; } CHECK(thrown);''')
make('c02_b','C02',TH,"""                    hg_assert(parent_v != v, "several root nodes detected");
                    hg_assert(parent_v > v, "nodes are not in a topological order");""","""                    hg_assert(parent_v != v, "several root nodes detected");
                    hg_assert(parent_v > v || num_children(v) == 0, "nodes are not in a topological order");""",'a node without children so far whose parent has a smaller index','a parent array that is not in topological order is accepted','''  array_1d<index_t> p{3, 3, 3, 4, 4}; tree ok(p); array_1d<index_t> q{2, 0, 2}; bool thrown = false; try { tree t(q); } catch (std::exception &) { thrown = true; } CHECK(thrown);
  array_1d<index_t> q2{4, 4, 3, 4, 4}; array_1d<index_t> q3{3, 3, 0, 4, 4}; thrown = false; try { tree t(q3); } catch (std::exception &) { thrown = true; } CHECK(thrown);''')
make('c03_a','C03',TH,"""                while (parent(v) != v && altitudes[parent(v)] < lambda) {""","""                while (parent(v) != v && altitudes[parent(v)] < lambda && altitudes[v] < altitudes[parent(v)]) {""",'a plateau: a node with the altitude of its parent below the searched level','find_region stops at a plateau','''  array_1d<index_t> p{4, 4, 5, 5, 6, 6, 6}; array_1d<double> a{0, 0, 0, 0, 0, 1, 2}; tree t(p); CHECK(t.find_region(0, 1.0, a) == 4); CHECK(t.find_region(2, 1.5, a) == 5); CHECK(t.find_region(0, 2.5, a) == 6);''')
make('c03_b','C03',TH,"""                if (!_children_computed) {
                    _children.resize(_num_vertices - _num_leaves);""","""                if (!_children_computed) {
                    if (_children.size() != _num_vertices - _num_leaves)
                        _children.resize(_num_vertices - _num_leaves);""",'-','-','')
make('c03_c','C03',TH,"""                vertex_descriptor end = (leaves_opt == leaves_it::include) ? -1 : num_leaves() - 1;
                vertex_descriptor start = (root_opt == root_it::include) ? _num_vertices - 1 : _num_vertices - 2;
                return irange<index_t>(start, end, -1);""","""                vertex_descriptor end = (leaves_opt == leaves_it::include) ? -1 : num_leaves() - 1;
                vertex_descriptor start = (root_opt == root_it::include) ? _num_vertices - 1 : _num_vertices - 2;
                if (start <= end + 1) {
                    return irange<index_t>(0, 0, -1);
                }
                return irange<index_t>(start, end, -1);""",'a traversal which visits exactly one node, e.g. internal nodes of a tree whose only internal node is its root','a single requested node is not visited','''  array_1d<index_t> p{2, 2, 2}; tree t(p); int n = 0; for (auto v : root_to_leaves_iterator(t, leaves_it::exclude, root_it::include)) { CHECK(v == 2); n++; } CHECK(n == 1);
  array_1d<index_t> q{2, 2, 3, 3}; tree s(q); n = 0; for (auto v : root_to_leaves_iterator(s, leaves_it::exclude, root_it::exclude)) { CHECK(v == 2); n++; } CHECK(n == 1);''')
make('c04_a','C04',UGH,"""                add_to_container(out_edges[v1], ei);
                if (v1 != v2)
                    add_to_container(out_edges[v2], ei);
                edges[ei].source = v1;""","""                add_to_container(out_edges[v1], ei);
                add_to_container(out_edges[v2], ei);
                edges[ei].source = v1;""",'re-targeting an edge to a self loop','the loop is listed twice at its vertex','''  ugraph g(3); add_edge(0, 1, g); set_edge(0, 2, 2, g); CHECK(degree(2, g) == 1); int n = 0; for (auto e : out_edge_iterator(2, g)) n++; CHECK(n == 1);''')
make('c04_b','C04',UGH,"""            auto position = std::find(c.begin(), c.end(), v);
            if (position != c.end())
                c.erase(position);""","""            auto position = std::lower_bound(c.begin(), c.end(), v);
            if (position != c.end() && *position == v)
                c.erase(position);""",'removal of an edge from a list that a previous re-targeting left unsorted','binary search assumes that edge lists are sorted by index: the removed edge stays listed','''  ugraph g(4); add_edge(0, 1, g); add_edge(0, 2, g); add_edge(0, 3, g); set_edge(0, 0, 3, g); remove_edge(0, g); CHECK(degree(0, g) == 2); for (auto e : out_edge_iterator(0, g)) CHECK(index(e, g) != 0);
  ugraph h(4); add_edge(0, 1, h); add_edge(2, 3, h); add_edge(0, 2, h); set_edge(1, 0, 1, h); set_edge(0, 0, 3, h); remove_edge(1, h); CHECK(degree(0, h) == 2);''')
make('c04_c','C04',UGH,"""            void add_vertices(size_t num) {
                if (num > 0) {
                    _num_vertices += num;
                    out_edges.resize(_num_vertices);
                }""","""            void add_vertices(size_t num) {
                if (num > 0) {
                    _num_vertices += num;
                    out_edges.assign(_num_vertices, out_edge_container_type());
                }""",'vertices added after edges','adding several vertices forgets the incident edges of existing ones','''  ugraph g(2); add_edge(0, 1, g); add_vertices(2, g); CHECK(degree(0, g) == 1); CHECK(degree(1, g) == 1);''')
