P=['C06']
IO='engine/src/io.rs'; CC='engine/src/algo/customizable_contraction_hierarchy/mod.rs'; TG='conversion/src/bin/tpgr_upscaling.rs'; CP='engine/src/bin/cch_preprocessing.rs'; EX='engine/src/export.rs'; NO='engine/src/datastr/node_order.rs'
def b(name,*eds,kind='bug',path=None): return (name,P,kind,[(path,o,n) for o,n in eds])
def k(name,*eds,path=None): return b(name,*eds,kind='ok',path=path)
W='File::create(path)?.write_all(self.data_bytes())'
M=[
b('let-under',(W,'let _ = File::create(path)?.write_all(self.data_bytes());\n        Ok(())'),path=IO),
b('ok',(W,'File::create(path)?.write_all(self.data_bytes()).ok();\n        Ok(())'),path=IO),
b('if-let',(W,'if let Ok(mut f) = File::create(path) {\n            f.write_all(self.data_bytes())?;\n        }\n        Ok(())'),path=IO),
b('match-ignore',(W,'match File::create(path) {\n            Ok(mut f) => f.write_all(self.data_bytes()),\n            Err(_) => Ok(()),\n        }'),path=IO),
b('only-some',(W,'let r = File::create(path)?.write_all(self.data_bytes());\n        if self.data_bytes().len() > 4096 {\n            r?;\n        }\n        Ok(())'),path=IO),
b('store-ignored',('store("cch_first_out", &self.first_out)?;','let _ = store("cch_first_out", &self.first_out);'),path=CC),
b('store-or',('store("cch_first_out", &self.first_out)?;','let first = store("cch_first_out", &self.first_out);\n        first.or_else(|_| Ok::<(), std::io::Error>(())).unwrap();'),path=CC),
b('lines-flatten',('let line = line.unwrap();','let line = if let Ok(l) = line { l } else { continue };'),path=TG),
b('lines-break',('let line = line.unwrap();','let line = match line {\n            Ok(line) => line,\n            Err(_) => break,\n        };'),path=TG),
b('lines-flatten2',('let line = line.unwrap();',''),('for line in lines {','for line in lines.flatten() {'),path=TG),
b('lines-filter',('let line = line.unwrap();',''),('for line in lines {','for line in lines.filter_map(|l| l.ok()) {'),path=TG),
b('lines-filter2',('let line = line.unwrap();',''),('for line in lines {','for line in lines.filter_map(Result::ok) {'),path=TG),
b('lines-while',('let line = line.unwrap();',''),('for line in lines {','while let Some(Ok(line)) = lines.next() {'),path=TG),
b('partial-write',(W,'let n = File::create(path)?.write(self.data_bytes())?;\n        debug_assert!(n <= self.data_bytes().len());\n        Ok(())'),path=IO),
b('partial-read',('file.read_exact(object.data_bytes_mut())?;','let _n = file.read(object.data_bytes_mut())?;'),path=IO),
b('load-default',('loader.load("ranks").map(Self::from_ranks)','Ok(Self::from_ranks(loader.load("ranks").unwrap_or_default()))'),path=NO),
b('is-err-log',(W,'let r = File::create(path)?.write_all(self.data_bytes());\n        if r.is_err() {\n            eprintln!("could not write");\n        }\n        Ok(())'),path=IO),
b('bin-write',('writeln!(output)?;','writeln!(output).unwrap_or(());'),path=TG),
k('match',(W,'match File::create(path) {\n            Ok(mut f) => f.write_all(self.data_bytes()),\n            Err(e) => Err(e),\n        }'),path=IO),
k('if-err',(W,'let r = File::create(path)?.write_all(self.data_bytes());\n        if let Err(e) = r {\n            eprintln!("{}", e);\n            return Err(e);\n        }\n        Ok(())'),path=IO),
k('and-then',(W,'File::create(path).and_then(|mut f| f.write_all(self.data_bytes()))'),path=IO),
k('line-match',('let line = line.unwrap();','let line = match line {\n            Ok(line) => line,\n            Err(e) => return Err(e.into()),\n        };'),path=TG),
k('line-panic',('let line = line.unwrap();','let line = match line {\n            Ok(line) => line,\n            Err(_) => panic!("bad line"),\n        };'),path=TG),
k('collect',('let line = line.unwrap();',''),('for line in lines {','for line in lines.collect::<Result<Vec<_>, _>>()? {'),path=TG),
k('is-err-ok',(W,'let r = File::create(path)?.write_all(self.data_bytes());\n        if r.is_err() {\n            eprintln!("could not write");\n        }\n        r'),path=IO),
k('let-ret',(W,'let mut f = File::create(path)?;\n        let r = f.write_all(self.data_bytes());\n        r.map_err(|e| { eprintln!("x"); e })'),path=IO),
k('helper',(W,'write(File::create(path)?, self.data_bytes())'),('pub trait Load: DataBytesMut','fn write(mut f: File, b: &[u8]) -> Result<()> {\n    f.write_all(b)\n}\n\npub trait Load: DataBytesMut'),path=IO),
]
