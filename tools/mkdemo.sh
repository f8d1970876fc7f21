#!/bin/bash
# mkdemo.sh ID: puts demo.sh and kit.tgz (a copy of the runtime and the instruction builders) into seeded/ID
cd "$(dirname "$0")/.."
id=$1; crate=${2:-harness}; k=$(mktemp -d)
if [ $crate = programs ]; then # a single computation, compiled with the macro
  mkdir -p $k/harness/src seeded/$id; cp compiler/programs/Cargo.* $k/harness/
  printf '\n[[bin]]\nname = "demo"\npath = "src/main.rs"\n' >> $k/harness/Cargo.toml
  tar --sort=name --mtime=@0 --owner=0 --group=0 -C $k -cf - . | gzip -n > seeded/$id/kit.tgz
  cp tools/demo/demo.sh seeded/$id/demo.sh; chmod +x seeded/$id/demo.sh; rm -rf $k; exit 0
fi
if [ $crate = declarations ]; then # declarations for the derive and account macros
  mkdir -p $k/harness/src seeded/$id; cp macros/declarations/Cargo.* $k/harness/; cp macros/Id.toml $k/
  printf '\n[[bin]]\nname = "demo"\npath = "src/main.rs"\n' >> $k/harness/Cargo.toml
  tar --sort=name --mtime=@0 --owner=0 --group=0 -C $k -cf - . | gzip -n > seeded/$id/kit.tgz
  cp tools/demo/demo.sh seeded/$id/demo.sh; chmod +x seeded/$id/demo.sh; rm -rf $k; exit 0
fi
mkdir -p $k/harness/src seeded/$id
cp -r pbt svm $k/; rm -rf $k/*/target
cp $crate/Cargo.lock $k/harness/; sed 's/autobins = true/autobins = false/' $crate/Cargo.toml > $k/harness/Cargo.toml
printf '\n[[bin]]\nname = "demo"\npath = "src/main.rs"\n' >> $k/harness/Cargo.toml
for f in $crate/src/*.rs; do [ $(basename $f) = main.rs ] || cp $f $k/harness/src/; done
# the client feature needs its view of /repo, but no shared module
if [ -f $crate/prepare.sh ]; then cp $crate/prepare.sh $k/harness/; : > $k/harness/src/lib.rs; fi
tar --sort=name --mtime=@0 --owner=0 --group=0 -C $k -cf - . | gzip -n > seeded/$id/kit.tgz
cp tools/demo/demo.sh seeded/$id/demo.sh; chmod +x seeded/$id/demo.sh
rm -rf $k
