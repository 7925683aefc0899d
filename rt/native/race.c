/* A deliberate data race: proves that the race detector is armed in this process. */
volatile long vp_counter;
long vp_deliberate_race(long n) {
    for (long i = 0; i < n; ++i) vp_counter += i;
    return vp_counter;
}
