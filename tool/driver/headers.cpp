// brings the header-only parts of the library into one analysed unit; never compiled to code or run
#include "Fraction.h"
#include "Slice.h"
#include "streams/StringReadStream.h"
#include "parallel/SimpleConcurrenceQueue.h"
#include "parallel/ThreadPool.h"

template class pg::base::bigNumber::parallel::SimpleConcurrenceQueue<pg::base::bigNumber::parallel::RawTask>;
template class pg::base::bigNumber::Slice<unsigned int>;
void pgbn_driver_push(pg::base::bigNumber::parallel::SimpleConcurrenceQueue<pg::base::bigNumber::parallel::RawTask> &q,
                      const pg::base::bigNumber::parallel::RawTask &t) {
    q.push(t, [] { return true; }, [] {});
}
