"""Writes known_findings.json from the fix: commits of /repo and the hand-kept known entries."""
import json,subprocess
props={'d3c3112':'C20','7700ceb':'C20','8175fb8':'C19','7e09620':'C19','3cc9edd':'C14','6667bed':'C16','641d6d2':'C16','8ab5cfe':'C18','87d468a':'C24','101b1a9':'C17','8dd9e69':'C01','40e845a':'C24','5ac7185':'C22','10c698f':'C22','fcc2fec':'C07','40e52c6':'C08','e253358':'C23','1629958':'C25','2d8bd80':'C17','54dbb28':'C02','a9eb5a1':'C02','de4dc18':'C17','f8aff27':'C05','1df9505':'C12','4ee8a1e':'C24','440558d':'C24','b375c05':'C12','0d2b944':'C10','11520e4':'C11','e6d99f3':'C15','77fa5cd':'C16','eb72bb5':'C20','cf4e7de':'C18','6fce5ab':'C24','8d96a91':'C10','dd1b82e':'C24','00b1512':'C24','ded5203':'C21','d7517aa':'C23','7e06c76':'C23','d5c1630':'C22'}
out=[{"id":"K-dof","property":"C12","status":"known","what":"absolute_sigma=False with several dependent components of the same shape: the degrees of freedom count the points of each distinct shape once instead of those of each component (HasCovarianceMatrix.data_shapes), so covariances are too large; a correct count breaks the existing test_vector_parameter_error"}]
try: old=json.load(open('/verif/known_findings.json'))
except Exception: old=[]
out+=[{"id":"K-alias-pickle","property":"C15","status":"known","what":"restoring a pickled parameter in a process where a parameter of that name lives resets the live one to the pickled value, bounds and fixed flag: sympy caches symbols by name, so both are one object"}]
out+=[{"id":"K-alias","property":"C22","status":"known","what":"creating a second parameter of a name resets the value, bounds and fixed flag of the first: sympy caches symbols by name and assumptions, so both are one object"}]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','6ebe77d..HEAD'],text=True).splitlines():
    h,m=l.split(' ',1); m=m.strip()
    full=subprocess.check_output(['git','-C','/repo','rev-parse',h],text=True).strip()
    out.append({"id":"fixed-"+h,"property":props[h],"status":"fixed","commit":h,"what":"fixed: property=%s %s %s"%(props[h],h,m.replace('fix: ',''))})
json.dump(out,open('/verif/known_findings.json','w'),indent=1)
