import json,subprocess
def h(s): return subprocess.check_output(['git','-C','/repo','log','--format=%h','--grep',s]).decode().split()[0]
F=[('P01','Colorize dabs on light pixels','colorize of a white pixel with black (integer division by zero) or a near-white grey (16 bit overflow: channel above alpha)'),
('P01','Posterize must keep','posterize gives a channel above alpha: a=r=0x7000 g=0x1000 b=0x6000, mask 0x8000, opacity 9, 2 levels'),
('P01','LockAlpha_Paint must not','pigment lock-alpha blend computes 0/0: alpha 1, mask 0x1b5, opacity 0x96'),
('P07','free the payload','operations still queued when a queue is freed are leaked'),
('P07','do not abort when','assertion failure when every tile of the map is dirty and an emptied tile is queued again'),
('P26','an invisible dab must','a visible dab followed by an invisible one: the dirty rectangle of the first is lost'),
('P26','end_atomic must not','end_atomic with room for 0 rectangles writes before the array'),
('P12','fill new fixed tiled','a new fixed tiled surface contains pixels of 65535, twice the full scale of 1<<15'),
('P12','clean up when the memory','leak (pixel buffer) or NULL dereference (scratch tile) when an allocation of mypaint_fixed_tiled_surface_new fails'),
('P12','size computations of large','mypaint_fixed_tiled_surface_new(16777217, 1) and (32768, 16384) abort: float and int arithmetic of the size assertions'),
('P26','keep the bounding box index','snowflake symmetry with 32 lines and a failed box allocation: write past the box array'),
('P16','address whole smudge buckets','smudge bucket 1 overlaps bucket 0 when set from outside; index -1 writes before the buckets; index 0 without buckets is not refused when negative'),
('P16','clear the smudge buckets','a reset after using only bucket 2 leaves it filled (and clears part of bucket 0)'),
('P16','count smudge buckets set','a bucket set from outside is not in the used range and survives a reset'),
('P29','drop the operations of a tile','a tile request that fails with two dabs queued: the first is leaked, the others block the tile from ever being rendered again'),
('P18','keep a valid zoom','stroke_to at a NaN, infinite or huge position sets the zoom to 0; with offset_by_speed the dabs of that event are placed at NaN'),
('P15','refuse malformed curves','loading a brush whose settings or inputs are not objects, or with a curve of one or more than 64 points, a point that is no array, or descending x, aborts or dereferences NULL'),
('P16','do not use uninitialised setting','the first simulation step of a new brush reads setting values that were never set (exp overflow, division by zero)')]
json.dump([dict(id='F%d'%(i+1),property=p,status='fixed',commit=h(s),what=w,text='fixed: property=%s %s %s'%(p,h(s),w)) for i,(p,s,w) in enumerate(F)],open('/verif/known-findings.json','w'),indent=1)
