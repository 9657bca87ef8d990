//@ property L02 I01
//@ enforce pip_eval_seg
//@ replace raycast
//@ timeout 300
//@ covers pip_eval_seg_slow
//@ note raycast is used through its contract (units L02_raycast, L02_raycast_spec)
enum tg_raycast_result g_rc;
static enum tg_raycast_result raycast(struct tg_segment s, struct tg_point p)
REQ(SFIN(s) && PFIN(p))
ASG()
ENS(RET == g_rc)
ENS(RET == TG_IN || RET == TG_ON || RET == TG_OUT)
ENS(IMPL(p.y < MIN2(s.a.y, s.b.y) || p.y > MAX2(s.a.y, s.b.y), RET == TG_OUT))
ENS(IMPL(p.x < MIN2(s.a.x, s.b.x) && p.y > MIN2(s.a.y, s.b.y) && p.y < MAX2(s.a.y, s.b.y), RET == TG_IN))
ENS(IMPL(p.x > MAX2(s.a.x, s.b.x), RET == TG_OUT));
#define A ring->points[i]
#define B ring->points[i + 1]
static inline void pip_eval_seg(const struct tg_ring *ring, int i, struct tg_point point, bool allow, bool *in, int *idx)
REQ(0 <= i && i < 1000000)
REQ(FRESH(ring, sizeof(struct tg_ring) + (i + 2) * sizeof(struct tg_point)) && FRESH(in, 1) && FRESH(idx, sizeof(int)))
REQ(PFIN(A) && PFIN(B) && PFIN(point))
REQ(g_rc == TG_IN || g_rc == TG_ON || g_rc == TG_OUT)
/* g_rc is what the ray cast of this segment gives */
REQ(IMPL(point.y < MIN2(A.y, B.y) || point.y > MAX2(A.y, B.y), g_rc == TG_OUT))
REQ(IMPL(point.x < MIN2(A.x, B.x) && point.y > MIN2(A.y, B.y) && point.y < MAX2(A.y, B.y), g_rc == TG_IN))
REQ(IMPL(point.x > MAX2(A.x, B.x), g_rc == TG_OUT))
ASG(*in, *idx)
ENS(IMPL(g_rc == TG_OUT, *in == OLD(*in) && *idx == OLD(*idx)))
ENS(IMPL(g_rc == TG_ON, *in == allow && *idx == i))
ENS(IMPL(g_rc == TG_IN, *idx == OLD(*idx) && *in == (OLD(*idx) == -1 ? !OLD(*in) : OLD(*in))));
void harness(void) {
    const struct tg_ring *r; int i; struct tg_point p; bool allow, *in; int *idx;
    pip_eval_seg(r, i, p, allow, in, idx);
    REACH(g_rc == TG_IN, "in"); REACH(g_rc == TG_ON, "on"); REACH(g_rc == TG_OUT, "out");
}
