"""Edits of the matrix (C30)."""
U = 'src/utils.rs'
PU = 'examples/psp/utils.rs'
C = 'C30'
IX = '''        let position = self.pos(idx);
        &self.data[position]'''
IM = '''        let position = self.pos(idx);
        &mut self.data[position]'''
PO = '        self.m * idx.0 + idx.1'
EDITS = [
    ('pos n', C, [(U, PO, '        self.n * idx.0 + idx.1')]),
    ('pos transposed read', C, [(U, IX, '        let position = self.pos((idx.1, idx.0));\n        &self.data[position]')]),
    ('pos no stride', C, [(U, PO, '        self.m + idx.0 + idx.1')]),
    ('pos max', C, [(U, PO, '        self.m.max(self.n) * idx.0 + idx.1')]),
    ('both swapped', C, [(U, PO, '        self.m * idx.1 + idx.0')]),
    ('mut clamps', C, [(U, IM, '        let position = self.pos(idx).min(self.data.len() - 1);\n        &mut self.data[position]')]),
    ('write col major', C, [(U, IM, '        let position = self.n * idx.1 + idx.0;\n        &mut self.data[position]')]),
    ('wrong assert', C, [(U, PO, '        assert!(idx.0 < self.m && idx.1 < self.n);\n' + PO)]),
    ('symmetric', C, [(U, IX, '''        let position = if idx.0 <= idx.1 { self.pos(idx) } else { self.pos((idx.1, idx.0)) };
        &self.data[position]''')]),
    ('storage square', C, [(U, 'Matrix { m, n, data: vec![item; m * n] }', 'Matrix { m, n, data: vec![item; n * n] }')]),
    ('storage swapped dims', None, [(U, 'Matrix { m, n, data: vec![item; m * n] }', 'Matrix { m: n, n: m, data: vec![item; m * n] }')]),
    ('storage sum', C, [(U, 'data: vec![Default::default(); m * n]', 'data: vec![Default::default(); m + n]')]),
    ('dims twice', C, [(U, 'Matrix { m, n, data: vec![Default::default(); m * n] }', 'Matrix { m, n: m, data: vec![Default::default(); m * n] }')]),
    ('saturate', C, [(U, PO, '        self.m * idx.0 + idx.1.min(self.m - 2)')]),
    ('psp col n', C, [(PU, '(0..self.n).map(move |r| &self.data', '(0..self.m).map(move |r| &self.data')]),
    ('psp col swap', C, [(PU, '&self.data[self.pos((r, i))]', '&self.data[self.pos((i, r))]')]),
    ('order', None, [(U, PO, '        idx.1 + idx.0 * self.m')]),
    ('direct', None, [(U, IX, '        let (i, j) = idx;\n        &self.data[j + i * self.m]')]),
    ('get', None, [(U, IX, '        self.data.get(self.pos(idx)).unwrap()')]),
    ('debug assert', None, [(U, PO, '        debug_assert!(idx.0 < self.n);\n        debug_assert!(idx.1 < self.m, "column {}", idx.1);\n' + PO)]),
    ('col major all', None, [(U, PO, '        idx.0 + self.n * idx.1')]),
    ('cases', None, [(U, PO, '        if idx.0 == 0 { return idx.1; }\n' + PO)]),
    # repeat(item).take(m * n).collect() is not recognised: an accepted, unlikely false alarm
    ('size let', None, [(U, '        Matrix { m, n, data: vec![item; m * n] }', '        let size = n * m;\n        let data = vec![item; size];\n        Self { data, n, m }')]),
    ('new via', None, [(U, '        Matrix { m, n, data: vec![item; m * n] }', '        let mut data = Vec::with_capacity(m * n);\n        data.resize(m * n, item);\n        Self { data, n, m }')]),
    ('offset helper', None, [(U, PO, '        self.row_start(idx.0) + idx.1'), (U, '    /// Returns the position (offset', '    fn row_start(&self, row: usize) -> usize {\n        row * self.m\n    }\n    /// Returns the position (offset')]),
]

# the tree has a known defect in row() that each edit repairs, until it is repaired in /repo
