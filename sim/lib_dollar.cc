#include "monaa.hh"
#include "lib.hh"
#include "exec.hh"
void matchDollar(const TimedAutomaton &a, FILE *f, bool bin, bool vec, RecState &st) {
  AnsContainer<Recorder> ans{Recorder(&st)};
  if (vec) { WordVector<std::pair<Alphabet, double>> w(f, bin); simin::preparing(); monaaDollar(w, a, ans); }
  else { WordLazyDeque w(f, bin); monaaDollar(w, a, ans); }
}
