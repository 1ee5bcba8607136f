import json,subprocess
M={'b0fc626':('C03 C01','writenek with wdsz=8 stored single-precision arrays as 4-byte words while the header said 8'),
'05b824f':('C08 C01','writenek truncated an existing file before refusing an unsupported word size'),
'1526331':('C02 C01 C04 C05','readnek: corrupted element map in the file was kept as is (or raised) instead of leaving a usable map'),
'63af26e':('C06 C05 C08','readre2 could not read big-endian files'),
'af4f50c':('C07','readrea/writerea dropped the third character of boundary condition types'),
'58327c9':('C06','writere2 refused lr1 stored as a tuple'),
'ac6b3b5':('C08 C07','writerea modified the mesh it was writing'),
'b5922b9':('C07 C08','writerea announced boundary conditions that did not follow when nbc is 0'),
'b3407d8':('C07','writerea wrote a stale number of curved sides'),
'6d1bdbb':('C07','readrea lost the conditions that follow an absent field'),
'e791a30':('C22 C11 C12 C13','smallest_edge measured face diagonals instead of some edges'),
'8cc908e':('C11','check_connectivity crashed or passed on connections to nonexistent faces'),
'f7a1ef6':('C22','DataLims failed on a field made of one element'),
'1a2845d':('C17 C21','HexaData shared lr1 and var with the caller'),
'77e2251':('C15','extrude(internal_bcs=False) left internal conditions in all layers but one'),
'e05e48e':('C15 C20','extrude left an element map of the size of the 2D mesh'),
'57aa0c2':('C14 C20','keep_elements left the element map of the original mesh'),
'ab9e880':('C19 C21','edge_mid and edge_circle modified the element'),
'e3f02ea':('C19 C20','map2D left a stale number of curved edges'),
'2249d0a':('C13 C19','map2D and generate_internal_bcs raised on meshes without boundary condition fields'),
'f492422':('C19','rotate_2d did not rotate around the given centre'),
'128b99b':('C18 C20','gen_circle stated no curved sides'),
'ccc6c63':('C18','gen_circle(internal_bcs=False) left dummy con conditions'),
'85fca92':('C18','gen_circle iterated from fixed start values and tolerance: wrong default spacing (inverted elements, outer vertices off the circle) for small or large radii'),
'84f516b':('C18','gen_circle with no=1 (or no room for the graded spacing) raised or gave inverted elements'),
'730b602':('C16','extrude_refine raised when fun or funpar is None'),
'bd659d4':('C16','extrude_refine split elements with opposite corners on the same side of the line into overlapping ones'),
'22c794d':('C16','extrude_refine refused corners lying on the line when the finer side is outside'),
'42380f6':('C16 C20','extrude_refine left the own-element references of split elements stale'),
'fbe6185':('C16','extrude_refine(internal_bcs=False) put boundary conditions inside split elements at the boundary'),
'abddb1b':('C10','readdns raised for files with passive scalars'),
'074e994':('C10','readplane raised for one- and three-dimensional planes'),
'31fe66a':('C24','names that go on after the extension (a.fld.gz, run.f00001/x.nc) were claimed, names with a line break in front of it were not'),
'd60f75a':('C23','open_dataset silently misplaced the values of elements whose points are stored in decreasing or exchanged directions'),
'5b8c312':('C25','hexa2vtk raised (NumPy 2.4 and later) for fields with pressure or temperature'),
'c106851':('C25','hexa2vtk added spurious points at the origin (more points allocated than there are)'),
'af742fb':('C25','hexa2vtk left points, velocity and cells of 2D fields zero'),
'2a06809':('C25','cell locations given to VTK did not count the entries with the number of vertices'),
'e8b11bd':('C19','rotate_2d left the centres of spherical curvature where they were'),
'837097a':('C15 C16','extrude, extrude_refine and extrude_mid refused meshes whose lr1 is a tuple (as from readnek)'),
'ca01875':('C03 C01','writenek wrote element maps of 8-byte integers or lists as they were (or raised)')}
log=subprocess.run(['git','-C','/repo','log','--format=%h %s','1269b8d..HEAD'],capture_output=True,text=True).stdout.split('\n')
out=[]
for l in reversed([x for x in log if x]):
    h=l.split()[0]
    if h in M:
        p,w=M[h]
    else: print('missing',l); continue
    for q in p.split(): out.append(f'fixed: property={q} {h} {w}')
d=json.load(open('/verif/known_findings.json')); d['fixed']=out
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
