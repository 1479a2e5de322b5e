//! C26: drawings show the graph or tree they were given: every node placed once, every edge joining its ends, nothing
//! overlapping where the layout promises it, and the exported text re-read.
use crate::tree::{M, build};
use oak_core::{
    GreenTree, RedNode, RedTree,
    memory::arena::SyntaxArena,
};
use oak_visualize::{
    ElementStyle, ExportFormat, Graph, GraphEdge, GraphLayout, GraphLayoutAlgorithm, GraphLayoutConfig, GraphNode, Layout, LayoutConfig, LayoutEdge, LayoutEngine, LayoutExporter, LayoutNode, NodeType, Point, Rect, RenderConfig, Size, SvgRenderer, Transform,
    TreeLayout, TreeLayoutAlgorithm, TreeLayoutConfig, TreeNode, Visualize, VisualizationTheme,
    layout::{Edge, EdgeType, ForceDirectedLayout, HierarchicalLayout, LayoutDirection},
};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use vcommon::*;

const EPS: f64 = 1e-6;

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= EPS * (1.0 + a.abs().max(b.abs()))
}
fn pnear(a: Point, b: Point) -> bool {
    near(a.x, b.x) && near(a.y, b.y)
}
fn overlap(a: &Rect, b: &Rect) -> bool {
    let (ax, ay, bx, by) = (a.origin.x + a.size.width, a.origin.y + a.size.height, b.origin.x + b.size.width, b.origin.y + b.size.height);
    let e = EPS * (1.0 + ax.abs().max(bx.abs()).max(ay.abs()).max(by.abs()));
    a.origin.x < bx - e && b.origin.x < ax - e && a.origin.y < by - e && b.origin.y < ay - e
}
fn mid(r: &Rect) -> Point {
    Point::new(r.origin.x + r.size.width / 2.0, r.origin.y + r.size.height / 2.0)
}
fn text(g: &mut Rng) -> String {
    g.string(&["a", "b", "é", "漢", "😀", " ", "<", ">", "&", "\"", "'", "&amp;", "</text>", "]]>", "\\", "{", "}", "<script>", "x1"], 6)
}
fn dim(g: &mut Rng) -> f64 {
    *g.pick(&[0.0, 0.5, 1.0, 10.0, 33.25, 100.0, 40.0, 250.0])
}
fn node_type(s: &str) -> NodeType {
    match s {
        "function" => NodeType::Function,
        "struct" => NodeType::Struct,
        "module" => NodeType::Module,
        _ => NodeType::Default,
    }
}
const KINDS: [&str; 5] = ["function", "struct", "module", "default", "other"];

/// A node as it must appear: (label, type, width, height).
type Want = BTreeMap<String, (String, NodeType, f64, f64)>;

/// What every layout promises.
fn placed(l: &Layout, nodes: &Want, edges: &[(String, String, Option<String>)]) -> Check {
    let got: BTreeSet<&String> = l.nodes.keys().collect();
    let want: BTreeSet<&String> = nodes.keys().collect();
    ensure!(got == want, "nodes placed", "got {got:?}\nwant {want:?}");
    for (id, (label, ty, w, h)) in nodes {
        let n = &l.nodes[id];
        ensure!(n.id == *id && n.label == *label && n.node_type == *ty, "node data", "{id:?}: {n:?}, wanted {label:?} {ty:?}");
        ensure!(near(n.rect.size.width, *w) && near(n.rect.size.height, *h), "node size", "{id:?}: {:?}, wanted {w} x {h}", n.rect);
        ensure!(n.rect.origin.x.is_finite() && n.rect.origin.y.is_finite(), "node position", "{id:?}: {:?}", n.rect);
    }
    let got: Vec<(String, String, Option<String>)> = l.edges.iter().map(|e| (e.from.clone(), e.to.clone(), e.label.clone())).collect();
    let want: Vec<(String, String, Option<String>)> = edges.iter().filter(|e| nodes.contains_key(&e.0) && nodes.contains_key(&e.1)).cloned().collect();
    ensure!(got == want, "edges drawn", "got {got:?}\nwant {want:?}");
    for e in &l.edges {
        let (a, b) = (&l.nodes[&e.from].rect, &l.nodes[&e.to].rect);
        ensure!(e.points.len() >= 2, "edge without a line", "{e:?}");
        ensure!(pnear(e.points[0], mid(a)) && pnear(*e.points.last().unwrap(), mid(b)), "edge ends", "{e:?} joins {a:?} and {b:?}");
    }
    if !nodes.is_empty() {
        let f = |p: fn(f64, f64) -> f64, v: fn(&Rect) -> f64| l.nodes.values().map(|n| v(&n.rect)).reduce(p).unwrap();
        let (x0, y0) = (f(f64::min, |r| r.origin.x), f(f64::min, |r| r.origin.y));
        let (x1, y1) = (f(f64::max, |r| r.origin.x + r.size.width), f(f64::max, |r| r.origin.y + r.size.height));
        let b = &l.bounds;
        ensure!(near(b.origin.x, x0) && near(b.origin.y, y0) && near(b.origin.x + b.size.width, x1) && near(b.origin.y + b.size.height, y1), "bounds", "{b:?}, wanted {x0} {y0} {x1} {y1}");
    }
    Ok(())
}

fn no_overlap(c: &mut Case, l: &Layout) -> Check {
    let v: Vec<_> = l.nodes.values().collect();
    for i in 0..v.len() {
        for j in 0..i {
            ensure!(!overlap(&v[i].rect, &v[j].rect), "nodes overlap", "{:?} {:?} and {:?} {:?}", v[i].id, v[i].rect, v[j].id, v[j].rect);
        }
    }
    c.seen("pairs of boxes compared", (v.len() * v.len().saturating_sub(1) / 2) as u64);
    Ok(())
}

/// Nodes on no directed cycle can be layered: true when the edges among `n` nodes have no directed cycle.
fn acyclic(n: usize, es: &[(usize, usize)]) -> bool {
    let mut indeg = vec![0; n];
    for e in es {
        indeg[e.1] += 1;
    }
    let mut todo: Vec<usize> = (0..n).filter(|i| indeg[*i] == 0).collect();
    let mut done = 0;
    while let Some(i) = todo.pop() {
        done += 1;
        for e in es.iter().filter(|e| e.0 == i) {
            indeg[e.1] -= 1;
            if indeg[e.1] == 0 {
                todo.push(e.1);
            }
        }
    }
    done == n
}

/// Components of the undirected reading.
fn components(n: usize, es: &[(usize, usize)]) -> usize {
    let mut p: Vec<usize> = (0..n).collect();
    fn find(p: &mut Vec<usize>, i: usize) -> usize {
        if p[i] == i { i } else { let r = find(p, p[i]); p[i] = r; r }
    }
    let mut k = n;
    for e in es {
        let (a, b) = (find(&mut p, e.0), find(&mut p, e.1));
        if a != b {
            p[a] = b;
            k -= 1;
        }
    }
    k
}

struct Gr {
    ids: Vec<String>,
    /// Indices beyond the ids name unknown nodes.
    edges: Vec<(usize, usize, Option<String>)>,
}

fn gen_graph(g: &mut Rng, unknown: bool) -> Gr {
    let n = g.below(*g.clone().pick(&[2, 5, 9, 15]));
    let mut ids: Vec<String> = vec![];
    while ids.len() < n {
        let s = if g.chance(1, 3) { text(g) } else { format!("n{}", g.below(99)) };
        if !ids.contains(&s) {
            ids.push(s);
        }
    }
    let mut edges = vec![];
    if n > 0 {
        let style = g.below(4);
        for i in 0..g.below(*g.clone().pick(&[n, n + 2, 2 * n])) {
            let (a, b) = (g.below(n), g.below(n));
            let (a, b) = match style {
                0 => (a.min(b), a.max(b)),
                1 if i + 1 < n => (g.below(i + 1), i + 1),
                _ => (a, b),
            };
            if style == 0 && a == b {
                continue;
            }
            let lab = if g.chance(1, 3) { Some(text(g)) } else { None };
            let far = |g: &mut Rng, i: usize| if unknown && g.chance(1, 12) { n + g.below(2) } else { i };
            edges.push((far(g, a), far(g, b), lab));
        }
    }
    Gr { ids, edges }
}

fn name(gr: &Gr, i: usize) -> String {
    gr.ids.get(i).cloned().unwrap_or_else(|| format!("unknown-{i}"))
}

fn graphs(c: &mut Case, g: &mut Rng) -> Check {
    let gr = gen_graph(g, true);
    let n = gr.ids.len();
    let directed = g.chance(2, 3);
    let cfg = GraphLayoutConfig { node_width: *g.pick(&[10.0, 80.0]), node_height: *g.pick(&[10.0, 40.0]), node_spacing: *g.pick(&[0.0, 20.0]), layer_distance: *g.pick(&[40.0, 100.0]), circle_radius: *g.pick(&[1.0, 200.0]), iterations: *g.pick(&[0, 1, 20, 100]), ..Default::default() };
    let mut graph = Graph::new(directed);
    let mut want = Want::new();
    for id in &gr.ids {
        let (label, ty) = (text(g), *g.pick(&KINDS));
        let mut node = GraphNode::new(id.clone(), label.clone()).with_type(ty.into());
        let (mut w, mut h) = (cfg.node_width, cfg.node_height);
        if g.chance(1, 3) {
            (w, h) = (dim(g).min(w), dim(g).min(h));
            node = node.with_size(Size::new(w, h));
        }
        graph.add_node(node);
        want.insert(id.clone(), (label, node_type(ty), w, h));
    }
    for (a, b, l) in &gr.edges {
        let mut e = GraphEdge::new(name(&gr, *a), name(&gr, *b));
        if let Some(l) = l {
            e = e.with_label(l.clone());
        }
        graph.add_edge(e);
    }
    let edges: Vec<(String, String, Option<String>)> = gr.edges.iter().map(|e| (name(&gr, e.0), name(&gr, e.1), e.2.clone())).collect();
    let known: Vec<(usize, usize)> = gr.edges.iter().filter(|e| e.0 < n && e.1 < n).map(|e| (e.0, e.1)).collect();
    c.input(format!("directed {directed} {:?} {:?} {cfg:?}", gr.ids, gr.edges));
    // questions about the graph
    for i in 0..n + 1 {
        let id = name(&gr, i);
        let mut want: Vec<String> = vec![];
        for e in &edges {
            if e.0 == id {
                want.push(e.1.clone());
            }
            if !directed && e.1 == id {
                want.push(e.0.clone());
            }
        }
        let mut got: Vec<String> = graph.get_neighbors(&id).into_iter().map(|s| s.to_string()).collect();
        ensure_eq!(graph.get_degree(&id), want.len(), "degree", "{id:?}");
        got.sort();
        want.sort();
        ensure_eq!(got, want, "neighbours", "{id:?}");
    }
    ensure_eq!(graph.is_connected(), components(n, &known) <= 1, "connected", "");
    if known.len() == gr.edges.len() {
        let cycles = graph.find_cycles();
        let some = if directed { !acyclic(n, &known) } else { components(n, &known) + known.len() != n };
        ensure!(cycles.is_empty() != some, "cycles found", "{cycles:?}, there are some: {some}");
        for cy in &cycles {
            ensure!(!cy.is_empty() && cy.iter().collect::<HashSet<_>>().len() == cy.len(), "cycle repeats a node", "{cy:?}");
            for i in 0..cy.len() {
                let (a, b) = (&cy[i], &cy[(i + 1) % cy.len()]);
                ensure!(graph.get_neighbors(a).contains(&b.as_str()), "cycle uses no edge", "{cy:?}: {a:?} to {b:?}");
            }
        }
        c.seen("cycles checked", cycles.len() as u64);
    }
    let algos = [GraphLayoutAlgorithm::ForceDirected, GraphLayoutAlgorithm::Circular, GraphLayoutAlgorithm::Hierarchical, GraphLayoutAlgorithm::Grid, GraphLayoutAlgorithm::Organic];
    for a in algos {
        let l = match GraphLayout::new().with_algorithm(a).with_config(cfg.clone()).layout_graph(&graph) {
            Ok(l) => l,
            Err(e) => return fail("layout refused", format!("{a:?}: {e}")),
        };
        if let Err(f) = placed(&l, &want, &edges) {
            return fail(f.sig, format!("{a:?}: {}", f.detail));
        }
        match a {
            GraphLayoutAlgorithm::Circular => {
                for x in l.nodes.values() {
                    let p = mid(&x.rect);
                    ensure!(near((p.x * p.x + p.y * p.y).sqrt(), cfg.circle_radius), "node off the circle", "{p:?}");
                }
                let ps: Vec<Point> = l.nodes.values().map(|x| mid(&x.rect)).collect();
                let step = 2.0 * cfg.circle_radius * (std::f64::consts::PI / n.max(1) as f64).sin();
                for i in 0..n {
                    for j in 0..i {
                        ensure!(ps[i].distance_to(&ps[j]) >= step - EPS * (1.0 + step), "nodes bunched on the circle", "{:?} {:?}", ps[i], ps[j]);
                    }
                }
            }
            GraphLayoutAlgorithm::Grid => no_overlap(c, &l)?,
            GraphLayoutAlgorithm::Hierarchical => {
                no_overlap(c, &l)?;
                if acyclic(n, &known) {
                    for (a, b) in &known {
                        let (a, b) = (&l.nodes[&gr.ids[*a]].rect, &l.nodes[&gr.ids[*b]].rect);
                        ensure!(a.origin.y + cfg.layer_distance <= b.origin.y + EPS, "edge against the layers", "{a:?} to {b:?}");
                    }
                    c.seen("acyclic graphs layered", 1);
                }
            }
            _ => {}
        }
        c.seen("graph layouts", 1);
    }
    match to_text(&graph.visualize())? {
        s => svg(&s, &GraphLayout::new().layout_graph(&graph).map_err(|e| Fail { sig: "layout refused".into(), detail: e.to_string() })?, &RenderConfig::default(), &BTreeMap::new(), &BTreeMap::new(), false)?,
    }
    c.distinct(&format!("{:?}{:?}", gr.ids, gr.edges));
    Ok(())
}

fn to_text(r: &oak_visualize::Result<String>) -> Result<String, Fail> {
    match r {
        Ok(s) => Ok(s.clone()),
        Err(e) => fail("rendering refused", e.to_string()),
    }
}

// ------------------------------------------------------------------ trees

fn gen_tree(g: &mut Rng, depth: usize, count: &mut usize, cfg: &TreeLayoutConfig, sizes: bool) -> TreeNode {
    *count += 1;
    let (label, ty) = (text(g), *g.pick(&KINDS));
    let mut t = TreeNode::new(format!("{}{}", if g.chance(1, 5) { text(g) } else { String::new() }, *count), label, ty.into());
    if sizes && g.chance(1, 2) {
        t = t.with_size(Size::new(dim(g), dim(g).min(cfg.level_distance)));
    }
    if depth > 0 {
        let k = *g.pick(&[0, 0, 1, 1, 2, 3, 5]);
        for _ in 0..k {
            if *count < 40 {
                let ch = gen_tree(g, depth - 1, count, cfg, sizes);
                t = t.with_child(ch);
            }
        }
    }
    t
}

fn walk<'a>(t: &'a TreeNode, depth: usize, f: &mut dyn FnMut(&'a TreeNode, usize)) {
    f(t, depth);
    for k in &t.children {
        walk(k, depth + 1, f);
    }
}

fn trees(c: &mut Case, g: &mut Rng) -> Check {
    let cfg = TreeLayoutConfig { node_width: *g.pick(&[10.0, 100.0]), node_height: *g.pick(&[1.0, 40.0]), level_distance: *g.pick(&[40.0, 80.0]), sibling_distance: *g.pick(&[0.0, 5.0, 20.0]), ..Default::default() };
    let mut count = 0;
    let depth = g.range(0, 6);
    let sizes = g.chance(1, 2);
    let t = gen_tree(g, depth, &mut count, &cfg, sizes);
    c.input(format!("{t:?} {cfg:?}"));
    let mut want = Want::new();
    let mut edges = vec![];
    let (mut deep, mut leaves) = (0, 0);
    let mut levels: Vec<Vec<&TreeNode>> = vec![];
    walk(&t, 0, &mut |n, d| {
        let s = n.size.unwrap_or(Size::new(cfg.node_width, cfg.node_height));
        want.insert(n.id.clone(), (n.label.clone(), node_type(&n.node_type), s.width, s.height));
        deep = deep.max(d + 1);
        leaves += n.children.is_empty() as usize;
        for k in &n.children {
            edges.push((n.id.clone(), k.id.clone(), None));
        }
        if levels.len() <= d {
            levels.push(vec![]);
        }
        levels[d].push(n);
    });
    ensure_eq!((t.depth(), t.node_count(), t.leaf_count(), t.is_leaf()), (deep, count, leaves, count == 1), "tree measures", "");
    for a in [TreeLayoutAlgorithm::Layered, TreeLayoutAlgorithm::Radial, TreeLayoutAlgorithm::Compact, TreeLayoutAlgorithm::Balloon] {
        let l = match TreeLayout::new().with_algorithm(a).with_config(cfg.clone()).layout_tree(&t) {
            Ok(l) => l,
            Err(e) => return fail("layout refused", format!("{a:?}: {e}")),
        };
        // edges may come in any order
        let mut es = edges.clone();
        es.sort();
        let mut l2 = l.clone();
        l2.edges.sort_by(|a, b| (&a.from, &a.to).cmp(&(&b.from, &b.to)));
        if let Err(f) = placed(&l2, &want, &es) {
            return fail(f.sig, format!("{a:?}: {}", f.detail));
        }
        let at = |n: &TreeNode| &l.nodes[&n.id].rect;
        match a {
            TreeLayoutAlgorithm::Layered | TreeLayoutAlgorithm::Compact => {
                for (d, v) in levels.iter().enumerate() {
                    for n in v {
                        ensure!(near(at(n).origin.y, at(&t).origin.y + d as f64 * cfg.level_distance), "node off its level", "{a:?} {:?} at level {d}: {:?}", n.id, at(n));
                    }
                    for w in v.windows(2) {
                        ensure!(at(w[0]).origin.x + at(w[0]).size.width <= at(w[1]).origin.x + EPS * 1e3, "order within a level", "{a:?}: {:?} {:?} before {:?} {:?}", w[0].id, at(w[0]), w[1].id, at(w[1]));
                    }
                }
                no_overlap(c, &l)?;
                if a == TreeLayoutAlgorithm::Compact {
                    let mut bad = None;
                    walk(&t, 0, &mut |n, _| {
                        fn reach(n: &TreeNode, l: &Layout) -> (f64, f64) {
                            let r = &l.nodes[&n.id].rect;
                            n.children.iter().map(|k| reach(k, l)).fold((r.origin.x, r.origin.x + r.size.width), |a, b| (a.0.min(b.0), a.1.max(b.1)))
                        }
                        if let (Some(f), Some(z)) = (n.children.first(), n.children.last()) {
                            let (x0, x1) = (reach(f, &l).0, reach(z, &l).1);
                            if !near(mid(at(n)).x, (x0 + x1) / 2.0) {
                                bad = Some(format!("{:?} at {:?} over {x0}..{x1}", n.id, at(n)));
                            }
                        }
                    });
                    if let Some(b) = bad {
                        return fail("parent not centred over its children", b);
                    }
                }
            }
            TreeLayoutAlgorithm::Radial | TreeLayoutAlgorithm::Balloon => {
                let mut bad = None;
                walk(&t, 0, &mut |n, _| {
                    let ps: Vec<Point> = n.children.iter().map(|k| mid(at(k))).collect();
                    let o = mid(at(n));
                    for i in 0..ps.len() {
                        if !near(o.distance_to(&ps[i]), o.distance_to(&ps[0])) || o.distance_to(&ps[i]) <= 0.0 {
                            bad = Some(format!("{:?}: children at different distances {ps:?} from {o:?}", n.id));
                        }
                        for j in 0..i {
                            if pnear(ps[i], ps[j]) {
                                bad = Some(format!("{:?}: children {i} and {j} at the same place {:?}", n.id, ps[i]));
                            }
                        }
                    }
                });
                if let Some(b) = bad {
                    return fail("children around their parent", format!("{a:?} {b}"));
                }
            }
        }
        c.seen("tree layouts", 1);
    }
    let l = TreeLayout::new().layout_tree(&t).map_err(|e| Fail { sig: "layout refused".into(), detail: e.to_string() })?;
    svg(&to_text(&t.visualize())?, &l, &RenderConfig::default(), &BTreeMap::new(), &BTreeMap::new(), false)?;
    c.distinct(&format!("{t:?}"));
    Ok(())
}

/// Trees of the syntax-tree library become drawings of the same shape.
fn syntax(c: &mut Case, g: &mut Rng) -> Check {
    let arena = SyntaxArena::new(64);
    let ops = g.range(2, 60);
    let b = build(g, &arena, ops)?;
    c.input(b.log.clone());
    fn count(m: &M) -> usize {
        match m {
            M::Leaf(..) => 1,
            M::Node(_, c) => 1 + c.iter().map(count).sum::<usize>(),
        }
    }
    if count(&b.model) > 3000 {
        return Ok(());
    }
    fn same(t: &TreeNode, m: &M, ids: &mut HashSet<String>) -> Check {
        ensure!(ids.insert(t.id.clone()), "id used twice", "{:?}", t.id);
        match m {
            M::Leaf(k, ..) => ensure!(t.children.is_empty() && t.label == format!("{k:?}") && t.node_type == "leaf", "leaf drawn", "{t:?} for {k:?}"),
            M::Node(k, kids) => {
                ensure!(t.label == format!("{k:?}") && t.node_type == "node" && t.children.len() == kids.len(), "node drawn", "{:?} {:?} with {} children for {k:?} with {}", t.label, t.node_type, t.children.len(), kids.len());
                for (a, b) in t.children.iter().zip(kids) {
                    same(a, b, ids)?;
                }
            }
        }
        Ok(())
    }
    let mut ids = HashSet::new();
    let off = g.below(5);
    let green = GreenTree::Node(b.root);
    let red = RedTree::Node(RedNode::new(b.root, off));
    same(&TreeNode::from(&green), &b.model, &mut ids)?;
    same(&TreeNode::from(&red), &b.model, &mut ids)?;
    same(&TreeNode::from(green.clone()), &b.model, &mut ids)?;
    same(&TreeNode::from(red.clone()), &b.model, &mut ids)?;
    let n = count(&b.model);
    if n < 200 {
        for s in [to_text(&green.visualize())?, to_text(&red.visualize())?] {
            let x = Xml::parse(&s)?;
            let gr = x.child("g")?;
            ensure_eq!((gr.kids.iter().filter(|k| k.name == "rect").count(), gr.kids.iter().filter(|k| k.name == "path").count()), (n, n - 1), "boxes and lines drawn", "");
        }
    }
    c.seen("syntax elements drawn", n as u64);
    c.distinct(&b.log);
    Ok(())
}

// ------------------------------------------------------------------ layout engines

fn engines(c: &mut Case, g: &mut Rng) -> Check {
    let gr = gen_graph(g, true);
    let n = gr.ids.len();
    // paths through dense cyclic graphs are many; keep those small
    let sparse = n <= 7 || gr.edges.len() <= n + 1;
    let cfg = LayoutConfig { horizontal_spacing: *g.pick(&[0.0, 40.0]), vertical_spacing: *g.pick(&[0.0, 30.0]), margin: *g.pick(&[0.0, 20.0]), ..Default::default() };
    let mut want = Want::new();
    let mut nodes = vec![];
    let uniform = g.chance(1, 2);
    for id in &gr.ids {
        let ty = *g.pick(&[NodeType::Default, NodeType::Function, NodeType::Struct, NodeType::Enum, NodeType::Variable, NodeType::Constant, NodeType::Module]);
        let (label, s) = (text(g), if uniform { Size::new(100.0, 50.0) } else { Size::new(dim(g), dim(g)) });
        nodes.push(LayoutNode::new(id.clone(), label.clone()).with_size(s).with_type(ty));
        want.insert(id.clone(), (label, ty, s.width, s.height));
    }
    let les: Vec<LayoutEdge> = gr
        .edges
        .iter()
        .map(|e| {
            let l = LayoutEdge::new(name(&gr, e.0), name(&gr, e.1));
            match &e.2 {
                Some(s) => l.with_label(s.clone()),
                None => l,
            }
        })
        .collect();
    let edges: Vec<(String, String, Option<String>)> = gr.edges.iter().map(|e| (name(&gr, e.0), name(&gr, e.1), e.2.clone())).collect();
    let known: Vec<(usize, usize)> = gr.edges.iter().filter(|e| e.0 < n && e.1 < n).map(|e| (e.0, e.1)).collect();
    c.input(format!("{nodes:?} {:?} {cfg:?}", gr.edges));
    let steps = *g.pick(&[0, 1, 30, 100]);
    let l = ForceDirectedLayout::new().with_iterations(steps).layout(&nodes, &les, &cfg).map_err(|e| Fail { sig: "layout refused".into(), detail: e.to_string() })?;
    placed(&l, &want, &edges).map_err(|f| Fail { sig: f.sig, detail: format!("force-directed: {}", f.detail) })?;
    if sparse {
        for d in [LayoutDirection::TopDown, LayoutDirection::BottomUp, LayoutDirection::LeftRight, LayoutDirection::RightLeft] {
            let l = HierarchicalLayout::new(d).layout(&nodes, &les, &cfg).map_err(|e| Fail { sig: "layout refused".into(), detail: e.to_string() })?;
            placed(&l, &want, &edges).map_err(|f| Fail { sig: f.sig, detail: format!("{d:?}: {}", f.detail) })?;
            no_overlap(c, &l)?;
            for x in l.nodes.values() {
                ensure!(x.rect.origin.x >= cfg.margin - EPS && x.rect.origin.y >= cfg.margin - EPS, "node in the margin", "{d:?} {:?}", x.rect);
            }
            if acyclic(n, &known) {
                for (a, b) in &known {
                    let (p, k) = (&l.nodes[&gr.ids[*a]].rect, &l.nodes[&gr.ids[*b]].rect);
                    let ok = match d {
                        LayoutDirection::TopDown => p.max_y() <= k.min_y() + EPS,
                        LayoutDirection::BottomUp => k.max_y() <= p.min_y() + EPS,
                        LayoutDirection::LeftRight => p.max_x() <= k.min_x() + EPS,
                        LayoutDirection::RightLeft => k.max_x() <= p.min_x() + EPS,
                    };
                    ensure!(ok, "child on the wrong side of its parent", "{d:?}: {p:?} and {k:?}");
                }
                c.seen("acyclic hierarchies", 1);
            }
            else {
                c.seen("cyclic hierarchies", 1);
            }
        }
    }
    c.distinct(&format!("{:?}{:?}", gr.ids, gr.edges));
    Ok(())
}

// ------------------------------------------------------------------ export

#[derive(Debug, Default)]
struct Xml {
    name: String,
    attrs: BTreeMap<String, String>,
    kids: Vec<Xml>,
    text: String,
}

impl Xml {
    /// A strict little reader: one root, attributes quoted and not repeated, every special character escaped.
    fn parse(s: &str) -> Result<Xml, Fail> {
        let bad = |at: usize, m: &str| Fail { sig: "drawing is not well-formed".into(), detail: format!("{m} at {at}: {:?}", clip(&s[floor_char(s, at.saturating_sub(60))..], 160)) };
        fn unescape(t: &str) -> Option<String> {
            let mut o = String::new();
            let mut rest = t;
            while let Some(i) = rest.find('&') {
                o.push_str(&rest[..i]);
                let e = rest[i..].find(';')? + i;
                o.push(match &rest[i + 1..e] {
                    "amp" => '&',
                    "lt" => '<',
                    "gt" => '>',
                    "quot" => '"',
                    "apos" => '\'',
                    x => match x.strip_prefix("#x") {
                        Some(h) => char::from_u32(u32::from_str_radix(h, 16).ok()?)?,
                        None => char::from_u32(x.strip_prefix('#')?.parse().ok()?)?,
                    },
                });
                rest = &rest[e + 1..];
            }
            o.push_str(rest);
            Some(o)
        }
        let mut stack: Vec<Xml> = vec![Xml::default()];
        let mut p = 0;
        while p < s.len() {
            let lt = s[p..].find('<').map_or(s.len(), |i| p + i);
            let t = &s[p..lt];
            if t.contains("]]>") {
                return Err(bad(p, "]]> in text"));
            }
            stack.last_mut().unwrap().text.push_str(&unescape(t).ok_or_else(|| bad(p, "bad entity"))?);
            if lt == s.len() {
                break;
            }
            p = lt;
            if s[p..].starts_with("</") {
                let e = s[p..].find('>').ok_or_else(|| bad(p, "tag not closed"))? + p;
                let x = stack.pop().unwrap();
                if x.name != s[p + 2..e] || stack.is_empty() {
                    return Err(bad(p, &format!("</{}> closes <{}>", &s[p + 2..e], x.name)));
                }
                stack.last_mut().unwrap().kids.push(x);
                p = e + 1;
                continue;
            }
            let word = |p: usize| s[p..].find(|c: char| !(c.is_ascii_alphanumeric() || "-_:.".contains(c))).map_or(s.len(), |i| p + i);
            let e = word(p + 1);
            if e == p + 1 {
                return Err(bad(p, "no tag name"));
            }
            let mut x = Xml { name: s[p + 1..e].into(), ..Default::default() };
            p = e;
            loop {
                let q = p + s[p..].len() - s[p..].trim_start().len();
                if s[q..].starts_with("/>") {
                    stack.last_mut().unwrap().kids.push(x);
                    p = q + 2;
                    break;
                }
                if s[q..].starts_with('>') {
                    stack.push(x);
                    p = q + 1;
                    break;
                }
                let e = word(q);
                if q == p || e == q || !s[e..].starts_with("=\"") {
                    return Err(bad(q, "bad attribute"));
                }
                let z = s[e + 2..].find('"').ok_or_else(|| bad(e, "attribute not closed"))? + e + 2;
                let v = &s[e + 2..z];
                if v.contains('<') {
                    return Err(bad(e, "< in an attribute"));
                }
                let v = unescape(v).ok_or_else(|| bad(e, "bad entity"))?;
                if x.attrs.insert(s[q..e].to_string(), v).is_some() {
                    return Err(bad(q, "attribute repeated"));
                }
                p = z + 1;
            }
        }
        let mut top = stack.pop().unwrap();
        if !stack.is_empty() || top.kids.len() != 1 || !top.text.trim().is_empty() {
            return Err(bad(s.len(), "not one element"));
        }
        Ok(top.kids.pop().unwrap())
    }
    fn child(&self, n: &str) -> Result<&Xml, Fail> {
        match self.kids.iter().find(|k| k.name == n) {
            Some(x) => Ok(x),
            None => fail("drawing lacks a part", n.to_string()),
        }
    }
    fn at(&self, n: &str) -> &str {
        self.attrs.get(n).map_or("", |s| s)
    }
    fn num(&self, n: &str) -> f64 {
        self.at(n).parse().unwrap_or(f64::NAN)
    }
}

/// The drawing shows exactly the layout.  `exact`: the layout given is the one drawn (else another run of it).
fn svg(s: &str, l: &Layout, cfg: &RenderConfig, ns: &BTreeMap<String, ElementStyle>, es: &BTreeMap<String, ElementStyle>, exact: bool) -> Check {
    let x = Xml::parse(s)?;
    ensure_eq!(x.name, "svg", "drawing", "");
    let bg = x.child("rect")?;
    ensure_eq!(bg.at("fill").to_string(), cfg.background_color.clone(), "background", "");
    ensure_eq!(s.contains("<marker "), cfg.show_arrows, "arrow head", "");
    if let Some(m) = x.child("defs")?.kids.iter().find(|k| k.name == "marker") {
        ensure_eq!((m.num("markerWidth"), m.child("polygon")?.at("fill").to_string()), (cfg.arrow_size, cfg.edge_color.clone()), "arrow head style", "");
    }
    let gr = x.child("g")?;
    type Box = (String, String, String, String, Option<String>, String, Vec<(String, String)>);
    let style = |x: &Xml, skip: &[&str]| -> Vec<(String, String)> { x.attrs.iter().filter(|a| !skip.contains(&a.0.as_str())).map(|a| (a.0.clone(), a.1.clone())).collect() };
    let mut boxes: Vec<Box> = vec![];
    let mut lines: Vec<Box> = vec![];
    let kids = &gr.kids;
    let mut i = 0;
    while i < kids.len() {
        let k = &kids[i];
        let lab = kids.get(i + 1).filter(|k| k.name == "text");
        let (lx, ly) = lab.map_or((f64::NAN, f64::NAN), |t| (t.num("x"), t.num("y")));
        let tstyle = lab.map_or(vec![], |t| style(t, &["x", "y", "text-anchor", "dominant-baseline", "class"]));
        let pos = |a: String| if exact { a } else { String::new() };
        match k.name.as_str() {
            "rect" => {
                let (rx, ry, w, h) = (k.num("x"), k.num("y"), k.num("width"), k.num("height"));
                if lab.is_some() {
                    ensure!(near(lx, rx + w / 2.0) && near(ly, ry + h / 2.0), "label beside its box", "{k:?}");
                }
                let (tx, ty) = shift(gr);
                ensure!(rx + tx >= cfg.padding - 1e-3 && ry + ty >= cfg.padding - 1e-3 && rx + w + tx <= x.num("width") - cfg.padding + 1e-3 && ry + h + ty <= x.num("height") - cfg.padding + 1e-3, "box outside the canvas", "{k:?} moved by {tx} {ty} in {:?}", x.attrs);
                boxes.push((pos(format!("{rx} {ry}")), format!("{w} {h}"), k.at("class").into(), String::new(), lab.map(|t| t.text.clone()), format!("{tstyle:?}"), style(k, &["x", "y", "width", "height", "class"])));
            }
            "path" => {
                if !boxes.is_empty() {
                    return fail("line drawn over a box", String::new());
                }
                let d = k.at("d").to_string();
                if let Some(t) = lab {
                    let v: Vec<f64> = d.split(' ').filter_map(|w| w.parse().ok()).collect();
                    let n = v.len();
                    ensure!(n >= 4 && near(t.num("x"), (v[0] + v[n - 2]) / 2.0) && (t.num("y") - (v[1] + v[n - 1]) / 2.0).abs() <= 20.0, "label far from its line", "{k:?} {t:?}");
                }
                lines.push((pos(d), String::new(), k.at("class").into(), k.at("marker-end").into(), lab.map(|t| t.text.clone()), format!("{tstyle:?}"), style(k, &["d", "class", "marker-end", "fill"])));
            }
            _ => return fail("unexpected element", format!("{k:?}")),
        }
        i += 1 + lab.is_some() as usize;
    }
    let fmt = |v: &[(&str, String)], extra: Option<&ElementStyle>| {
        let mut m: BTreeMap<String, String> = v.iter().map(|a| (a.0.to_string(), a.1.clone())).collect();
        if let Some(s) = extra {
            if let Some(o) = s.opacity {
                m.insert("opacity".into(), o.to_string());
            }
            for (k, v) in &s.attributes {
                m.insert(k.clone(), v.clone());
            }
        }
        m.into_iter().collect::<Vec<_>>()
    };
    let pos = |a: String| if exact { a } else { String::new() };
    let mut wb: Vec<Box> = vec![];
    for n in l.nodes.values() {
        let st = ns.get(&n.id);
        let r = &n.rect;
        let fill = st.and_then(|s| s.fill_color.clone()).unwrap_or(cfg.node_fill_color.clone());
        let stroke = st.and_then(|s| s.stroke_color.clone()).unwrap_or(cfg.node_stroke_color.clone());
        let sw = st.and_then(|s| s.stroke_width).unwrap_or(cfg.node_stroke_width);
        let tf = st.and_then(|s| s.text_color.clone()).unwrap_or(cfg.text_color.clone());
        let ts = st.and_then(|s| s.text_size).unwrap_or(cfg.text_size);
        let tstyle = if cfg.show_labels { fmt(&[("fill", tf), ("font-size", ts.to_string()), ("font-family", cfg.font_family.clone())], None) } else { vec![] };
        let class = st.and_then(|s| s.class_name.clone()).map_or("node".to_string(), |c| format!("node {c}"));
        wb.push((pos(format!("{} {}", r.origin.x, r.origin.y)), format!("{} {}", r.size.width, r.size.height), class, String::new(), cfg.show_labels.then(|| n.label.clone()), format!("{tstyle:?}"), fmt(&[("fill", fill), ("stroke", stroke), ("stroke-width", sw.to_string())], st)));
    }
    wb.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}")));
    boxes.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}")));
    ensure!(boxes == wb, "boxes drawn", "got {:?}\nwant {:?}", clip(&format!("{boxes:?}"), 900), clip(&format!("{wb:?}"), 900));
    let mut wl: Vec<Box> = vec![];
    for e in l.edges.iter().filter(|e| e.points.len() >= 2) {
        let st = es.get(&format!("{}_{}", e.from, e.to));
        let d = e.points.iter().enumerate().map(|(i, p)| format!("{} {} {}", if i == 0 { "M" } else { "L" }, p.x, p.y)).collect::<Vec<_>>().join(" ");
        let stroke = st.and_then(|s| s.stroke_color.clone()).unwrap_or(cfg.edge_color.clone());
        let sw = st.and_then(|s| s.stroke_width).unwrap_or(cfg.edge_width);
        let tf = st.and_then(|s| s.text_color.clone()).unwrap_or(cfg.text_color.clone());
        let ts = st.and_then(|s| s.text_size).unwrap_or(cfg.text_size * 0.8);
        let tstyle = if e.label.is_some() { fmt(&[("fill", tf), ("font-size", ts.to_string()), ("font-family", cfg.font_family.clone())], None) } else { vec![] };
        let class = st.and_then(|s| s.class_name.clone()).map_or("edge".to_string(), |c| format!("edge {c}"));
        wl.push((pos(d), String::new(), class, if cfg.show_arrows { "url(#arrowhead)".into() } else { String::new() }, e.label.clone(), format!("{tstyle:?}"), fmt(&[("stroke", stroke), ("stroke-width", sw.to_string())], st)));
    }
    wl.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}")));
    lines.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}")));
    ensure!(lines == wl, "lines drawn", "got {:?}\nwant {:?}", clip(&format!("{lines:?}"), 900), clip(&format!("{wl:?}"), 900));
    Ok(())
}

fn shift(gr: &Xml) -> (f64, f64) {
    let t = gr.at("transform");
    let v: Vec<f64> = t.trim_start_matches("translate(").trim_end_matches(')').split(',').filter_map(|s| s.trim().parse().ok()).collect();
    (v.first().copied().unwrap_or(f64::NAN), v.get(1).copied().unwrap_or(f64::NAN))
}

fn gen_style(g: &mut Rng) -> ElementStyle {
    let mut s = ElementStyle::new();
    if g.chance(1, 2) {
        s = s.with_fill(text(g));
    }
    if g.chance(1, 2) {
        s = s.with_stroke(text(g), dim(g));
    }
    if g.chance(1, 2) {
        s = s.with_text(text(g), dim(g));
    }
    if g.chance(1, 2) {
        s = s.with_opacity(0.25);
    }
    if g.chance(1, 2) {
        s = s.with_class(g.string(&["a", "b-c", " x", "é", "<", "\""], 3));
    }
    for k in ["data-a", "data-b", "title"] {
        if g.chance(1, 4) {
            s = s.with_attribute(k.into(), text(g));
        }
    }
    s
}

fn export(c: &mut Case, g: &mut Rng) -> Check {
    let gr = gen_graph(g, false);
    let n = gr.ids.len();
    let num = |g: &mut Rng| (g.below(4000) as f64 - 2000.0) / *g.pick(&[1.0, 4.0, 3.0, 7.0]);
    let mut l = Layout::new();
    let mut ns = BTreeMap::new();
    let mut es = BTreeMap::new();
    for id in &gr.ids {
        let r = Rect::from_xywh(num(g), num(g), dim(g), dim(g));
        if g.chance(1, 5) {
            l.add_node(id.clone(), r);
        }
        else {
            l.add_node_with_metadata(id.clone(), text(g), r, NodeType::Default);
        }
        if g.chance(1, 3) {
            ns.insert(id.clone(), gen_style(g));
        }
    }
    for e in &gr.edges {
        let mut pts = vec![mid(&l.nodes[&gr.ids[e.0]].rect)];
        for _ in 0..g.below(3) {
            pts.push(Point::new(num(g), num(g)));
        }
        pts.push(mid(&l.nodes[&gr.ids[e.1]].rect));
        if g.chance(1, 10) {
            pts.truncate(g.below(2));
        }
        let mut x = Edge::new(gr.ids[e.0].clone(), gr.ids[e.1].clone()).with_points(pts);
        if let Some(s) = &e.2 {
            x = x.with_label(s.clone());
        }
        l.add_edge(x);
        if g.chance(1, 4) {
            es.insert(format!("{}_{}", gr.ids[e.0], gr.ids[e.1]), gen_style(g));
        }
    }
    let mut cfg = match g.below(7) {
        0 => VisualizationTheme::light().to_render_config(),
        1 => VisualizationTheme::dark().to_render_config(),
        2 => VisualizationTheme::github().to_render_config(),
        3 => RenderConfig::default(),
        _ => {
            let mut t = VisualizationTheme::default();
            t.background_color = text(g);
            t.node.fill_color = text(g);
            t.node.stroke_color = text(g);
            t.node.stroke_width = 2.5;
            t.edge.color = text(g);
            t.edge.width = 0.75;
            t.edge.arrow.enabled = g.chance(1, 2);
            t.edge.arrow.size = 3.0;
            t.text.color = text(g);
            t.text.font_size = 11.0;
            t.text.font_family = text(g);
            let c = t.to_render_config();
            ensure_eq!(
                (c.background_color.clone(), c.node_fill_color.clone(), c.node_stroke_color.clone(), c.node_stroke_width, c.edge_color.clone(), c.edge_width, c.show_arrows, c.arrow_size, c.text_color.clone(), c.text_size),
                (t.background_color.clone(), t.node.fill_color.clone(), t.node.stroke_color.clone(), 2.5, t.edge.color.clone(), 0.75, t.edge.arrow.enabled, 3.0, t.text.color.clone(), 11.0),
                "theme applied",
                ""
            );
            ensure_eq!(c.font_family, t.text.font_family, "theme applied", "");
            c
        }
    };
    cfg.padding = *g.pick(&[0.0, 20.0, 7.5]);
    cfg.show_labels = g.chance(4, 5);
    c.input(format!("{l:?} {ns:?} {es:?} {cfg:?}"));
    let mut r = SvgRenderer::new().with_config(cfg.clone());
    for (k, v) in &ns {
        r.set_node_style(k.clone(), v.clone());
    }
    for (k, v) in &es {
        r.set_edge_style(k.clone(), v.clone());
    }
    let s = to_text(&r.render_layout(&l))?;
    svg(&s, &l, &cfg, &ns, &es, true)?;
    let plain = to_text(&LayoutExporter::new(ExportFormat::Svg).with_config(cfg.clone()).export(&l))?;
    svg(&plain, &l, &cfg, &BTreeMap::new(), &BTreeMap::new(), true)?;
    let html = to_text(&LayoutExporter::new(ExportFormat::Html).with_config(cfg.clone()).export(&l))?;
    let (a, z) = (html.find("<svg"), html.rfind("</svg>"));
    let (Some(a), Some(z)) = (a, z)
    else { return fail("page without a drawing", clip(&html, 300)) };
    svg(&html[a..z + 6], &l, &cfg, &BTreeMap::new(), &BTreeMap::new(), true)?;
    ensure!(!html[..a].contains("<script") && html.trim_end().ends_with("</html>"), "page frame", "");
    let js = to_text(&LayoutExporter::new(ExportFormat::Json).with_config(cfg).export(&l))?;
    let v: serde_json::Value = serde_json::from_str(&js).map_err(|e| Fail { sig: "export is no JSON".into(), detail: e.to_string() })?;
    let nodes = v["nodes"].as_object().cloned().unwrap_or_default();
    ensure_eq!(nodes.len(), n, "exported nodes", "");
    for x in l.nodes.values() {
        let o = &nodes.get(&x.id).cloned().unwrap_or_default();
        let f = |k: &str| o[k].as_f64().unwrap_or(f64::NAN);
        ensure!(near(f("x"), x.rect.origin.x) && near(f("y"), x.rect.origin.y) && near(f("width"), x.rect.size.width) && near(f("height"), x.rect.size.height), "exported node", "{o} for {x:?}");
    }
    let edges = v["edges"].as_array().cloned().unwrap_or_default();
    ensure_eq!(edges.len(), l.edges.len(), "exported edges", "");
    for (o, e) in edges.iter().zip(&l.edges) {
        let pts = o["points"].as_array().cloned().unwrap_or_default();
        ensure!(o["from"] == e.from.as_str() && o["to"] == e.to.as_str() && o["label"].as_str() == e.label.as_deref() && pts.len() == e.points.len(), "exported edge", "{o} for {e:?}");
        for (a, b) in pts.iter().zip(&e.points) {
            ensure!(near(a["x"].as_f64().unwrap_or(f64::NAN), b.x) && near(a["y"].as_f64().unwrap_or(f64::NAN), b.y), "exported point", "{a} for {b:?}");
        }
    }
    c.seen("drawings re-read", 3);
    c.distinct(&s);
    Ok(())
}

/// What is put together piece by piece holds each piece, and nothing else changes.
fn builders(c: &mut Case, g: &mut Rng) -> Check {
    let js = |x: &dyn erased::Ser| x.json();
    let (id, label, ty) = (text(g), text(g), text(g));
    let (k, v, w) = (text(g), text(g), dim(g));
    let size = Size::new(dim(g), dim(g));
    c.input(format!("{id:?} {label:?} {ty:?} {k:?} {v:?} {w} {size:?}"));
    let sj = serde_json::json!({"width": size.width, "height": size.height});
    let at = |on: bool| if on { serde_json::json!({k.clone(): v.clone()}) } else { serde_json::json!({}) };
    for bits in 0..16u8 {
        let on = |b: u8| bits & (1 << b) != 0;
        let mut n = GraphNode::new(id.clone(), label.clone());
        let mut e = GraphEdge::new(id.clone(), label.clone());
        let mut t = TreeNode::new(id.clone(), label.clone(), ty.clone());
        let kid = TreeNode::new(format!("{id}+"), v.clone(), k.clone());
        // in either order
        let order: Vec<u8> = if g.chance(1, 2) { (0..4).collect() } else { (0..4).rev().collect() };
        for b in order.into_iter().filter(|b| on(*b)) {
            match b {
                0 => {
                    n = n.with_attribute(k.clone(), v.clone());
                    e = e.with_attribute(k.clone(), v.clone());
                    t = t.with_attribute(k.clone(), v.clone());
                }
                1 => {
                    n = n.with_size(size);
                    e = e.with_label(v.clone());
                    t = t.with_size(size);
                }
                2 => {
                    n = n.with_weight(w);
                    e = e.with_weight(w).undirected();
                    t = t.with_children(vec![kid.clone(), kid.clone()]);
                }
                _ => {
                    n = n.with_type(ty.clone());
                    e = e.with_type(ty.clone());
                    if !on(2) {
                        t = t.with_child(kid.clone());
                    }
                }
            }
        }
        let opt = |on: bool, x: serde_json::Value| if on { x } else { serde_json::Value::Null };
        let kind = if on(3) { &ty } else { "default" };
        let weight = if on(2) { w } else { 1.0 };
        ensure_eq!(js(&n), serde_json::json!({"id": id, "label": label, "node_type": kind, "size": opt(on(1), sj.clone()), "attributes": at(on(0)), "weight": weight}), "node put together", "");
        ensure_eq!(js(&e), serde_json::json!({"from": id, "to": label, "label": opt(on(1), v.clone().into()), "edge_type": kind, "weight": weight, "directed": !on(2), "attributes": at(on(0))}), "edge put together", "");
        let kids = if on(2) { vec![js(&kid), js(&kid)] } else if on(3) { vec![js(&kid)] } else { vec![] };
        ensure_eq!(js(&t), serde_json::json!({"id": id, "label": label, "node_type": ty, "children": kids, "attributes": at(on(0)), "size": opt(on(1), sj.clone())}), "tree node put together", "");
        ensure_eq!(serde_json::from_value::<TreeNode>(js(&t)).map(|x| js(&x)).ok(), Some(js(&t)), "tree node read back", "");
    }
    let l = LayoutEdge::new(id.clone(), label.clone()).with_type(EdgeType::Dependency).with_label(v.clone());
    ensure!(l.from == id && l.to == label && l.label == Some(v.clone()) && l.edge_type == EdgeType::Dependency, "layout edge put together", "{l:?}");
    let (x, y) = (dim(g), dim(g));
    ensure!(Size::square(x) == Size::new(x, x) && size.scale_xy(x, y) == Size::new(size.width * x, size.height * y) && size.scale(x) == size.scale_xy(x, x), "sizes", "");
    ensure!(near(size.aspect_ratio() * size.height, size.width) || size.height == 0.0, "aspect of a size", "{size:?}");
    // the engine's settings are the same however they are given
    let (rep, att, it) = (*g.pick(&[0.0, 10.0, 5000.0]), *g.pick(&[0.01, 0.1, 0.5]), *g.pick(&[0, 1, 7, 60]));
    let mut gr = Graph::new(true);
    gr.add_node(GraphNode::new("a".into(), "a".into()));
    gr.add_node(GraphNode::new("b".into(), "b".into()));
    gr.add_edge(GraphEdge::new("a".into(), "b".into()).with_weight(*g.pick(&[0.5, 1.0, 2.0])));
    let far = |l: GraphLayout| -> Result<f64, Fail> {
        let l = l.layout_graph(&gr).map_err(|e| Fail { sig: "layout refused".into(), detail: e.to_string() })?;
        Ok(mid(&l.nodes["a"].rect).distance_to(&mid(&l.nodes["b"].rect)))
    };
    let cfg = GraphLayoutConfig { repulsion_strength: rep, spring_strength: att, iterations: it, ..Default::default() };
    let one = far(GraphLayout::new().with_config(cfg.clone()).with_algorithm(GraphLayoutAlgorithm::ForceDirected))?;
    let two = far(GraphLayout::force_directed().with_repulsion(rep).with_iterations(it).with_attraction(att))?;
    ensure!((one - two).abs() < 1e-3 * (1.0 + one.abs()), "settings given one by one", "repulsion {rep} attraction {att} steps {it}: apart by {one} and {two}");
    let one = far(GraphLayout::circular())?;
    let two = far(GraphLayout::new().with_algorithm(GraphLayoutAlgorithm::Circular))?;
    ensure!(near(one, two), "circular layout by name", "{one} {two}");
    c.seen("builders", 48);
    c.distinct(&(id, label, k));
    Ok(())
}

/// Anything with a JSON form.
mod erased {
    pub trait Ser {
        fn json(&self) -> serde_json::Value;
    }
    impl<T: serde::Serialize> Ser for T {
        fn json(&self) -> serde_json::Value {
            serde_json::to_value(self).unwrap()
        }
    }
}

fn geometry(c: &mut Case, g: &mut Rng) -> Check {
    let num = |g: &mut Rng| (g.below(400) as f64 - 200.0) / *g.pick(&[1.0, 4.0, 8.0]);
    let pos = |g: &mut Rng| g.below(200) as f64 / *g.pick(&[1.0, 4.0, 8.0]);
    let mut p = Point::new(num(g), num(g));
    let q = Point::new(num(g), num(g));
    let r = Rect::from_xywh(num(g), num(g), pos(g), pos(g));
    let mut s = Rect::from_xywh(num(g), num(g), pos(g), pos(g));
    // exactly on a border, or with borders that just touch
    if g.chance(1, 2) {
        p.x = *g.pick(&[p.x, r.min_x(), r.max_x(), r.center().x]);
        p.y = *g.pick(&[p.y, r.min_y(), r.max_y(), r.center().y]);
    }
    if g.chance(1, 2) {
        s.origin.x = *g.pick(&[s.origin.x, r.max_x(), r.min_x() - s.size.width, r.min_x()]);
        s.origin.y = *g.pick(&[s.origin.y, r.max_y(), r.min_y() - s.size.height, r.min_y()]);
    }
    let k = *g.pick(&[1.5, 0.25, 2.0]);
    let z = r.size.scale_xy(k, 2.0 * k);
    let y = r.size.scale(k);
    ensure!(near(y.width, r.size.width * k) && near(y.height, r.size.height * k), "scaled size", "{:?} by {k}: {y:?}", r.size);
    ensure!(near(z.width, r.size.width * k) && near(z.height, r.size.height * 2.0 * k), "scaled size", "{:?} by {k}: {z:?}", r.size);
    if r.size.height > 0.0 {
        ensure!(near(r.size.aspect_ratio() * r.size.height, r.size.width), "aspect ratio", "{:?}: {}", r.size, r.size.aspect_ratio());
    }
    c.input(format!("{p:?} {q:?} {r:?} {s:?}"));
    let inside = |p: Point, r: &Rect| p.x >= r.origin.x && p.x <= r.origin.x + r.size.width && p.y >= r.origin.y && p.y <= r.origin.y + r.size.height;
    ensure_eq!(r.contains_point(p), inside(p, &r), "point in a box", "");
    let meet = r.origin.x.max(s.origin.x) <= (r.origin.x + r.size.width).min(s.origin.x + s.size.width) && r.origin.y.max(s.origin.y) <= (r.origin.y + r.size.height).min(s.origin.y + s.size.height);
    ensure_eq!((r.intersects(&s), s.intersects(&r)), (meet, meet), "boxes meet", "");
    let u = r.union(&s);
    ensure!(u == s.union(&r) && [r, s].iter().all(|x| [x.top_left(), x.bottom_right(), x.top_right(), x.bottom_left(), x.center()].iter().all(|p| inside(*p, &u.expand(EPS)))), "union", "{u:?}");
    ensure!(near(u.size.width, r.max_x().max(s.max_x()) - r.min_x().min(s.min_x())) && near(u.size.height, r.max_y().max(s.max_y()) - r.min_y().min(s.min_y())), "union too large", "{u:?}");
    let f = Rect::from_points(p, q);
    ensure!(f == Rect::from_points(q, p) && inside(p, &f.expand(EPS)) && inside(q, &f.expand(EPS)) && near(f.width(), (p.x - q.x).abs()) && near(f.height(), (p.y - q.y).abs()), "box of two points", "{f:?}");
    let t = r.translate(p.x, p.y);
    ensure!(pnear(t.origin, r.origin + p) && t.size == r.size && pnear(t.center(), r.center() + p), "moved box", "{t:?}");
    let k = num(g).abs();
    let z = r.scale(k);
    ensure!(near(z.max_x(), r.max_x() * k) && near(z.min_y(), r.min_y() * k) && near(z.size.area(), r.size.area() * k * k), "scaled box", "{z:?}");
    let e = r.expand(3.0);
    ensure!(near(e.min_x(), r.min_x() - 3.0) && near(e.max_x(), r.max_x() + 3.0) && near(e.min_y(), r.min_y() - 3.0) && near(e.max_y(), r.max_y() + 3.0), "expanded box", "{e:?}");
    ensure!(near(p.distance_to(&q), ((p - q).x.powi(2) + (p - q).y.powi(2)).sqrt()) && near(p.distance_to(&q), q.distance_to(&p)) && pnear(p.translate(q.x, q.y), p + q) && pnear((p + q) - q, p), "points", "");
    // transformations: composing is applying one after the other
    let tr = |g: &mut Rng| match g.below(3) {
        0 => Transform::translate(num(g), num(g)),
        1 => Transform::scale(num(g), num(g)),
        _ => Transform::rotate(num(g)),
    };
    let ts: Vec<Transform> = (0..g.range(1, 5)).map(|_| tr(g)).collect();
    let all = ts.iter().fold(Transform::identity(), |a, t| a.compose(t));
    let one = ts.iter().fold(p, |p, t| t.transform_point(p));
    let got = all.transform_point(p);
    let big = 1.0 + one.x.abs() + one.y.abs() + ts.iter().fold(300.0, |a: f64, t| a * (1.0 + t.a.abs().max(t.d.abs())) + t.e.abs() + t.f.abs());
    ensure!((got.x - one.x).abs() <= 1e-9 * big && (got.y - one.y).abs() <= 1e-9 * big, "composed transformation", "{ts:?}: {got:?}, one by one {one:?}");
    let a = num(g);
    let ro = Transform::rotate(a);
    ensure!(near(ro.transform_point(p).distance_to(&ro.transform_point(q)), p.distance_to(&q)), "rotation keeps distances", "");
    let back = Transform::rotate(-a).transform_point(ro.transform_point(p));
    ensure!((back.x - p.x).abs() < 1e-6 && (back.y - p.y).abs() < 1e-6, "rotation back", "");
    ensure!(pnear(Transform::rotate(std::f64::consts::FRAC_PI_2).transform_point(Point::new(1.0, 0.0)), Point::new(0.0, 1.0)) && pnear(Transform::translate(p.x, p.y).transform_point(q), p + q), "rotation sense", "");
    c.seen("geometry laws", 1);
    c.distinct(&format!("{p:?}{q:?}{r:?}{s:?}"));
    Ok(())
}

pub fn drawing(run: &mut Run) {
    run.family("graphs", 3000, 10000, |c| {
        let g = &mut c.rng.clone();
        graphs(c, g)
    });
    run.family("trees", 4000, 12000, |c| {
        let g = &mut c.rng.clone();
        trees(c, g)
    });
    run.family("syntax", 2000, 6000, |c| {
        let g = &mut c.rng.clone();
        syntax(c, g)
    });
    run.family("engines", 4000, 12000, |c| {
        let g = &mut c.rng.clone();
        engines(c, g)
    });
    run.family("export", 4000, 12000, |c| {
        let g = &mut c.rng.clone();
        export(c, g)
    });
    run.family("builders", 500, 2000, |c| {
        let g = &mut c.rng.clone();
        builders(c, g)
    });
    run.family("geometry", 8000, 20000, |c| {
        let g = &mut c.rng.clone();
        geometry(c, g)
    });
}
