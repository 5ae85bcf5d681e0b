#!/bin/sh
# Stand-in for a solver (installed under the names "vampire" and "z3"): records that it was started,
# on what, and answers what the script says.  $CV_FAKE is the directory of the run.
PATH=/usr/local/bin:/usr/bin:/bin; export PATH
me=${0##*/}
d=$CV_FAKE
f=
for a; do f=$a; done
# the problem (the last one mentioned is the goal) and the round.  A solver killed too early to leave a
# trace does not disturb the numbering: that happens only in the last round of a problem.
b=$(grep -o 'mark[0-9]*' "$f" | tail -n 1); b=${b#mark}
n=1
while ! mkdir "$d/$me.$b.$n" 2>/dev/null; do n=$((n+1)); done
n=$b.$n
r=$d/$me.$n
cp "$f" "$r/in"
printf '%s\n' "$@" > "$r/args"
echo $$ > "$r/pid.tmp"; mv "$r/pid.tmp" "$r/pid"
echo "start $me $n" >> "$d/log"
after=; answer=${CV_FAKE_DEFAULT:-extra}
[ -f "$d/script.$me.$n" ] && read -r after answer < "$d/script.$me.$n"
case $after in
  -|'') ;;
  *) # wait for the other solver of the round to be over
     while [ ! -f "$d/$after/pid" ]; do sleep 0.01; done
     read -r p < "$d/$after/pid"
     while [ -d "/proc/$p" ]; do sleep 0.01; done
     sleep 0.03;;
esac
[ "$answer" = hang ] && exec sleep 120
echo "answer $me $n $answer" >> "$d/log"
[ -f "$d/out.$me.$n" ] && cat "$d/out.$me.$n"
case $me.$answer in
  vampire.unsat) exit 0;;
  vampire.new|vampire.again|vampire.none|vampire.extra) exit 1;;
  vampire.err) exit 3;;
  z3.unsat) echo unsat; exit 0;;
  z3.sat) echo sat; exit 0;;
  z3.timeout|z3.extra) echo timeout; exit 0;;
  z3.unknown) echo unknown; exit 0;;
  z3.err) echo unsat; exit 1;;
  z3.empty) exit 0;;
  # ended by a signal: with something printed before (odd rounds) or nothing
  vampire.sig) case $n in *[13579]) echo "% Running in auto input_syntax mode. Trying SMTLIB2";; esac; kill -9 $$;;
  z3.sig) case $n in *[13579]) echo unsat;; esac; kill -9 $$;;
  *.sig) kill -9 $$;;
esac
