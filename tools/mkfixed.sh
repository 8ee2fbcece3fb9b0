#!/bin/bash
# known_findings.txt: "fixed:" lines from tools/fixed.txt (subject -> property), hashes looked up in /repo
cd "$(dirname "$0")/.." || exit 1
{
echo "# known: property=<id> key=<key> <what>   -- suppresses exactly that key"
cat tools/known.txt
echo "# fixed: property=<id> <commit> <what failed> -- documentation only, suppresses nothing"
git -C /repo log --reverse --format='%h %s' a0a62f6..HEAD | while read -r h s; do
  k=$(grep -F "$(echo "$s" | cut -c6-)" tools/fixed.txt | cut -d' ' -f1)
  echo "fixed: property=${k:-UNKNOWN} $h ${s#fix: }"
done
} > known_findings.txt
grep UNKNOWN known_findings.txt
true
