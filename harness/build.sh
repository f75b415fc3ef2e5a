cargo rustc --release --offline --lib --crate-type cdylib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp
