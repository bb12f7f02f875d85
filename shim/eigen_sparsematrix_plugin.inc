// Newer-Eigen API used by /repo, absent from Eigen 3.4.
template <typename InputIterators>
void setFromSortedTriplets(const InputIterators& begin, const InputIterators& end) { setFromTriplets(begin, end); }
