//@ property R01
//@ enforce tg_segment_rect
struct tg_rect tg_segment_rect(struct tg_segment s)
REQ(FINITE(s.a.x) && FINITE(s.a.y) && FINITE(s.b.x) && FINITE(s.b.y))
ASG()
ENS(RET.min.x <= s.a.x && RET.min.x <= s.b.x && (RET.min.x == s.a.x || RET.min.x == s.b.x))
ENS(RET.min.y <= s.a.y && RET.min.y <= s.b.y && (RET.min.y == s.a.y || RET.min.y == s.b.y))
ENS(RET.max.x >= s.a.x && RET.max.x >= s.b.x && (RET.max.x == s.a.x || RET.max.x == s.b.x))
ENS(RET.max.y >= s.a.y && RET.max.y >= s.b.y && (RET.max.y == s.a.y || RET.max.y == s.b.y));
void harness(void) {
    struct tg_segment in_s;
    struct tg_rect r = tg_segment_rect(in_s);
    REACH(r.min.x == in_s.b.x && r.max.y == in_s.a.y, "mixed");
}
