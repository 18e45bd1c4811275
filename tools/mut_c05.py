P=['C05']
A='engine/src/algo/'; IO='engine/src/io.rs'; CC=A+'customizable_contraction_hierarchy/mod.rs'; FT=A+'customizable_contraction_hierarchy/customization/ftd_for_pot.rs'; TP=A+'traffic_aware/td_traffic_pots.rs'
TA=A+'td_astar.rs'; SG='engine/src/datastr/graph/floating_time_dependent/shortcut_graph.rs'; FO='engine/src/datastr/graph/first_out_graph.rs'; NO='engine/src/datastr/node_order.rs'
SL="""
"""
def b(name,*eds,kind='bug',path=None): return (name,P,kind,[(path,o,n) for o,n in eds])
def k(name,*eds,path=None): return b(name,*eds,kind='ok',path=path)
M=[
b('pot-swap-load',('bw_sources: loader.load("bw_sources")?','bw_sources: loader.load("fw_sources")?'),path=FT),
b('pot-swap-save',('store("fw_first_source", &self.fw_first_source)','store("fw_first_source", &self.bw_first_source)'),path=FT),
b('pot-name-clash',('store("bw_bucket_bounds", &self.bw_bucket_bounds)','store("fw_bucket_bounds", &self.bw_bucket_bounds)'),path=FT),
b('pot-drop',('        store("bucket_to_metric", &self.bucket_to_metric)?;\n','')  ,path=FT),
b('pot-both',('store("fw_sources", &self.fw_sources)','store("fw_sources", &self.bw_sources)'),('store("bw_sources", &self.bw_sources)','store("bw_sources", &self.fw_sources)'),path=FT),
b('pot-swap-bounds',('            fw_static_bound,\n            fw_bucket_bounds,','            fw_static_bound: loader.load("bw_static_bound")?,\n            fw_bucket_bounds,'),path=FT),
b('perf-swap',('up_unpacking: loader.load("up_unpacking")?,\n            down_unpacking: loader.load("down_unpacking")?','up_unpacking: loader.load("down_unpacking")?,\n            down_unpacking: loader.load("up_unpacking")?'),path=CC),
b('perf-tail',('let backward_tail = downward','let backward_tail = upward'),path=CC),
b('perf-graphs',('let downward: OwnedGraph = loader.reconstruct("bw_graph")','let downward: OwnedGraph = loader.reconstruct("fw_graph")'),path=CC),
b('perf-cond',('        store("up_unpacking", &self.up_unpacking)?;','        if !self.up_unpacking.is_empty() {\n            store("up_unpacking", &self.up_unpacking)?;\n        }'),path=CC),
b('cch-head',('store("cch_head", &self.head)','store("cch_head", &self.tail)'),path=CC),
b('cch-name',('store("cch_head", &self.head)','store("ranks", &self.head)'),path=CC),
b('cch-sort',('let head: Vec<NodeId> = loader.load("cch_head")?;','let mut head: Vec<NodeId> = loader.load("cch_head")?;\n        head.sort_unstable();'),path=CC),
b('mm-swap',('            fw_metrics: loader.load("fw_metrics")?,\n            bw_metrics: loader.load("bw_metrics")?,\n            fw_graph','            bw_metrics: loader.load("fw_metrics")?,\n            fw_metrics: loader.load("bw_metrics")?,\n            fw_graph'),path=TP),
b('mm-save-swap',('store("fw_upper", &self.fw_upper)','store("fw_upper", &self.fw_metrics)'),path=TP),
b('mm-customized',('store("customized_smooth", &crate::io::Sub(&self.customized_smooth))?;','store("fw_upper", &crate::io::Sub(&self.customized_smooth))?;'),path=TP),
b('ta-graph',('store("bw_graph", &crate::io::Sub(&self.bw_graph))?;\n        store("fw_metrics"','store("bw_graph", &crate::io::Sub(&self.fw_graph))?;\n        store("fw_metrics"'),path=TA),
b('ta-upper',('customized_upper: loader.reconstruct_prepared("customized_upper", self)?','customized_upper: loader.reconstruct_prepared("upper_bound_customized", self)?'),path=TA),
b('ta-imp',('store("bw_weights", &self.bw_weights)','store("bw_weights", &self.fw_weights)'),path=TA),
b('sg-in',('store("incoming_constant", &self.incoming.constant)','store("incoming_constant", &self.outgoing.constant)'),path=SG),
b('sg-tail',('let incoming_head: Vec<NodeId> = loader.load("incoming_head")?;','let incoming_head: Vec<NodeId> = loader.load("incoming_head")?;\n        let (i0, outgoing_first_out) = (outgoing_first_out, incoming_first_out);\n        let incoming_first_out = i0;'),path=SG),
b('sg-tail2',('tail: outgoing_tail,\n\n                bounds: loader','tail: incoming_tail.clone(),\n\n                bounds: loader'),path=SG),
b('sg-src',('first_source: loader.load("incoming_first_source")?','first_source: loader.load::<Vec<(u32, u32)>, _>("incoming_sources")?.into_iter().map(|(x, _): (u32, u32)| x).collect()'),path=SG),
b('fo-w',('Ok(Self::new(loader.load("first_out")?, loader.load("head")?, loader.load("weights")?))','let mut g: Self = Self::new(loader.load("first_out")?, loader.load("head")?, loader.load("weights")?);\n        g.weight = loader.load("head")?;\n        Ok(g)'),path=FO),
b('fo-save',('store("weights", &self.weight())?;','if self.num_nodes() > 1 { store("weights", &self.weight())?; }'),path=FO),
b('no-order',('store("ranks", &&self.ranks[..])','store("ranks", &&self.node_order[..])'),path=NO),
b('no-load',('map(Self::from_ranks)','map(Self::from_node_order)'),path=NO),
b('write-partial',('File::create(path)?.write_all(self.data_bytes())','File::create(path)?.write(self.data_bytes()).map(|_| ())'),path=IO),
b('write-append',('File::create(path)?.write_all(self.data_bytes())','File::options().create(true).append(true).open(path)?.write_all(self.data_bytes())'),path=IO),
b('write-notrunc',('File::create(path)?.write_all(self.data_bytes())','File::options().create(true).write(true).open(path)?.write_all(self.data_bytes())'),path=IO),
b('write-empty',('        File::create(path)?.write_all(self.data_bytes())','        if self.data_bytes().is_empty() {\n            return Ok(());\n        }\n        File::create(path)?.write_all(self.data_bytes())'),path=IO),
b('write-buf',('File::create(path)?.write_all(self.data_bytes())','let mut w = std::io::BufWriter::new(File::create(path)?);\n        w.write_all(self.data_bytes())'),path=IO),
b('read-partial',('file.read_exact(object.data_bytes_mut())?;','file.read(object.data_bytes_mut())?;'),path=IO),
b('read-noassert',('        assert_eq!(num_bytes % mem::size_of::<T>(), 0);\n        let num_elements = num_bytes / mem::size_of::<T>();\n        (0..num_elements).map(|_| T::default()).collect()\n    }\n}\n\nimpl<T: Default + Copy> Load for Box','        let num_elements = num_bytes / mem::size_of::<T>();\n        (0..num_elements).map(|_| T::default()).collect()\n    }\n}\n\nimpl<T: Default + Copy> Load for Box'),('        assert_eq!(metadata.len() as usize, object.data_bytes_mut().len());\n',''),path=IO),
b('read-size',('let num_elements = num_bytes / mem::size_of::<T>();\n        (0..num_elements).map(|_| T::default()).collect()\n    }\n}\n\nimpl<T: Default + Copy> Load for Box','let num_elements = num_bytes / mem::size_of::<u32>();\n        (0..num_elements).map(|_| T::default()).collect()\n    }\n}\n\nimpl<T: Default + Copy> Load for Box'),path=IO),
b('bytes-size',('impl<T: Copy> DataBytes for &[T] {\n    fn data_bytes(&self) -> &[u8] {\n        let num_bytes = self.len() * mem::size_of::<T>();','impl<T: Copy> DataBytes for &[T] {\n    fn data_bytes(&self) -> &[u8] {\n        let num_bytes = self.len() * mem::align_of::<T>();'),path=IO),
b('bytes-prefix',('impl<T: Copy> DataBytes for Vec<T> {\n    fn data_bytes(&self) -> &[u8] {\n        self[..].data_bytes()','impl<T: Copy> DataBytes for Vec<T> {\n    fn data_bytes(&self) -> &[u8] {\n        self[..self.len().min(1 << 20)].data_bytes()'),path=IO),
b('dir',('object.save(&dir.as_ref().join(name))','object.save(&dir.as_ref().with_file_name(name))'),path=IO),
b('loader-dir',('T::load_from(self.path.join(path))','T::load_from(self.path.with_file_name(path.as_ref().file_name().unwrap()))'),path=IO),
b('sub-skip',('self.0.deconstruct_to(path)','if path.as_ref().exists() { return Ok(()); }\n        self.0.deconstruct_to(path)'),path=IO),
k('write-let',('File::create(path)?.write_all(self.data_bytes())','let bytes = self.data_bytes();\n        let mut file = File::create(path)?;\n        file.write_all(bytes)?;\n        Ok(())'),path=IO),
k('write-bufok',('File::create(path)?.write_all(self.data_bytes())','let mut w = std::io::BufWriter::new(File::create(path)?);\n        w.write_all(self.data_bytes())?;\n        w.flush()'),path=IO),
k('write-fs',('File::create(path)?.write_all(self.data_bytes())','std::fs::write(path, self.data_bytes())'),path=IO),
k('write-opts',('File::create(path)?.write_all(self.data_bytes())','File::options().create(true).write(true).truncate(true).open(path)?.write_all(self.data_bytes())'),path=IO),
k('read-let',('let mut object = Self::new_with_bytes(metadata.len() as usize);\n        assert_eq!(metadata.len() as usize, object.data_bytes_mut().len());\n        file.read_exact(object.data_bytes_mut())?;\n\n        Ok(object)','let len = metadata.len() as usize;\n        let mut object = Self::new_with_bytes(len);\n        let buf = object.data_bytes_mut();\n        assert_eq!(buf.len(), len);\n        file.read_exact(buf).map(|_| object)'),path=IO),
k('pot-reorder',('        store("fw_required", &self.fw_required)?;\n        store("bw_required", &self.bw_required)?;','        store("bw_required", &self.bw_required)?;\n        store("fw_required", &self.fw_required)?;'),path=FT),
k('pot-let',('        Ok(Self {\n            fw_static_bound,','        let bw_required = loader.load("bw_required")?;\n        let bw_sources = loader.load("bw_sources")?;\n        Ok(Self {\n            fw_static_bound,'),('bw_required: loader.load("bw_required")?','bw_required'),('bw_sources: loader.load("bw_sources")?','bw_sources'),path=FT),
k('sg-helper',('''        let mut incoming_tail = vec![0 as NodeId; incoming_head.len()];
        for (node, range) in incoming_first_out.windows(2).enumerate() {
            for tail in &mut incoming_tail[range[0] as usize..range[1] as usize] {
                *tail = node as NodeId;
            }
        }
''','''        let incoming_tail = tails(&incoming_first_out, incoming_head.len());
'''),('impl<\'a> ReconstructPrepared<CustomizedGraph<\'a>> for CustomizedGraphReconstrctor<\'a> {','''fn tails(first_out: &[EdgeId], m: usize) -> Vec<NodeId> {
    let mut tail = vec![0 as NodeId; m];
    for node in 0..first_out.len() - 1 {
        for e in first_out[node]..first_out[node + 1] {
            tail[e as usize] = node as NodeId;
        }
    }
    tail
}

impl<'a> ReconstructPrepared<CustomizedGraph<'a>> for CustomizedGraphReconstrctor<'a> {'''),path=SG),
k('perf-seq',('''        let upward: OwnedGraph = loader.reconstruct("fw_graph")?;
        let downward: OwnedGraph = loader.reconstruct("bw_graph")?;
''','''        let downward: OwnedGraph = loader.reconstruct("bw_graph")?;
        let upward: OwnedGraph = loader.reconstruct("fw_graph")?;
        let (up_unpacking, down_unpacking) = (loader.load("up_unpacking")?, loader.load("down_unpacking")?);
'''),('            up_unpacking: loader.load("up_unpacking")?,\n            down_unpacking: loader.load("down_unpacking")?,','            up_unpacking,\n            down_unpacking,'),path=CC),
k('perf-tail-ok',('''        let backward_tail = downward
            .first_out()
            .array_windows::<2>()
            .enumerate()
            .flat_map(|(tail, [idx_from, idx_to])| std::iter::repeat(tail as EdgeId).take((idx_to - idx_from) as usize))
            .collect();
''','''        let mut backward_tail = Vec::with_capacity(downward.num_arcs());
        for node in 0..downward.num_nodes() {
            for _ in 0..downward.degree(node as NodeId) {
                backward_tail.push(node as EdgeId);
            }
        }
'''),path=CC),
k('save-last',('        store("up_unpacking", &self.up_unpacking)?;\n        store("down_unpacking", &self.down_unpacking)?;\n        Ok(())','        store("up_unpacking", &self.up_unpacking)?;\n        store("down_unpacking", &self.down_unpacking)'),path=CC),
k('save-loop',('''        store("fw_upper", &self.fw_upper)?;
        store("bw_upper", &self.bw_upper)?;
''','''        for (name, upper) in [("fw_upper", &self.fw_upper), ("bw_upper", &self.bw_upper)] {
            store(name, upper)?;
        }
'''),path=TP),
k('dir-all',('std::fs::create_dir(dir)?;','std::fs::create_dir_all(dir)?;'),path=IO),
k('new-bytes',('        (0..num_elements).map(|_| T::default()).collect()\n    }\n}\n\nimpl<T: Default + Copy> Load for Box','        vec![T::default(); num_elements]\n    }\n}\n\nimpl<T: Default + Copy> Load for Box'),path=IO),
]
