#!/bin/bash
# seedcheck.sh DIR... : patch applies, demo passes on the clean tree and fails on the patched one, stable tests pass
# (tests run in a scratch copy; TESTS=0 skips them)
for s in "$@"; do s=$(realpath $s)
  id=$(basename $s); D=$(mktemp -d /tmp/seedXXXXXX)
  git clone -q ${SRC:-/repo} $D/repo; cp -r $s $D/demo; rm -f $D/demo/patch.diff $D/demo/meta.json
  (cd $D/repo && timeout 300 bash $D/demo/demo.sh >$D/clean.log 2>&1); a=$?
  git -C $D/repo apply $s/patch.diff || { echo "$id: DOES NOT APPLY"; rm -rf "$D"; continue; }
  (cd $D/repo && timeout 300 bash $D/demo/demo.sh >$D/bad.log 2>&1); b=$?
  t="-"
  if [ "${TESTS:-1}" = 1 ]; then
    (cd $D/repo && PYTHONPATH=$D/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 \
    --continue-on-collection-errors --run-optional-tests=expensive --doctest-modules \
    $(for f in autocast checkpointing gradient_accumulation kfac_like lin2023simplifying lin2023simplifying_ddp param_groups scaler; do echo --ignore=test/optim/test_$f.py; done) \
    test singd >$D/t.log 2>&1); t=$(tail -1 $D/t.log)
  fi
  echo "$id: clean=$a patched=$b tests: $t"; [ $a = 0 ] || tail -3 $D/clean.log; [ $b != 0 ] && tail -1 $D/bad.log
  rm -rf "$D"
done
