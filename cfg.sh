# dev helper: build a named config
case $1 in
 std) bash /verif/b.sh k-std std $2;;
 all) bash /verif/b.sh "k-std,k-parallel,k-simd,k-x86,k-pre,k-ctr,k-slow,k-avx,k-hooks" all $2;;
 sse) bash /verif/b.sh k-std,k-sse sse $2;;
 nostd) bash /verif/b.sh "" nostd $2;;
 native) RUSTFLAGS="-C target-feature=+avx2,+fma" bash /verif/b.sh k-std,k-x86 native $2;;
esac
