// Linked between the rest of the harness and the library: constructed after the
// former's static objects and before the latter's, and destroyed the other way
// around.
void early_begin();
void early_end();
extern bool probe_constructed;
bool probe_constructed_early = false;
static struct Early
{
    Early() { probe_constructed_early = probe_constructed; early_begin(); }
    ~Early() { early_end(); }
} early;
