// Newer-Eigen API used by Sleipnir. setFromSortedTriplets() requires its input
// to be sorted (column-major order here) and without duplicates; the stand-in
// checks that precondition instead of trusting it.
template <typename SlpIt>
void setFromSortedTriplets(const SlpIt& begin, const SlpIt& end) {
  for (SlpIt it = begin; it != end; ++it) {
    if (it != begin) {
      SlpIt prev = it; --prev;
      Index po = IsRowMajor ? prev->row() : prev->col(), pi = IsRowMajor ? prev->col() : prev->row();
      Index o = IsRowMajor ? it->row() : it->col(), i = IsRowMajor ? it->col() : it->row();
      if (!(po < o || (po == o && pi < i))) slp_shim_unsorted_triplets();
    }
    if (it->row() < 0 || it->row() >= this->rows() || it->col() < 0 || it->col() >= this->cols()) slp_shim_unsorted_triplets();
  }
  this->setFromTriplets(begin, end);
}
