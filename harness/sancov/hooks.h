#define VP_RING 8192
struct vp_cmp { uint64_t a, b; uint32_t size, pc; };
extern uint8_t *vp_start, *vp_end;
extern struct vp_cmp vp_ring[VP_RING];
extern uint32_t vp_n, vp_on;
