"""Regenerates the fixed: lines of known_findings.txt from the history of /repo."""
import subprocess
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s']).decode().splitlines()
M={'9338403':'C04','0c740cf':'C05','7cf3c1f':'C11','3b543a6':'C21','5a70a4d':'C02','80058b8':'C02','752ee61':'C01','3860899':'C14','3854354':'C13','3d1bcc5':'C13','9d67209':'C06','1094666':'C23','0427301':'C26',
'161bbab':'C15','d18f9e1':'C15','b13e161':'C15','d8afa61':'C15','1d04a16':'C15','14b6162':'C02','6b4a11c':'C02','1ebda3f':'C16','d877a43':'C15','d619e90':'C16','d8dab6c':'C16','65e26d5':'C16','01c8872':'C17','d86cf84':'C17','52b80cc':'C17','b49b6fa':'C17',
'84fdc0b':'C18','9e4817b':'C16','c4c1332':'C16','a2fbfaf':'C16','a61a6e1':'C16','5f52ca6':'C18','64d3034':'C16','f306ba5':'C19','4d42de7':'C19','3356360':'C20','89ca273':'C20','97bb4c0':'C25','bec8881':'C25','eac6ab9':'C24','8ef615f':'C24',
'7aa140f':'C08','ab901cf':'C08','d24bd92':'C09','61eea20':'C11','1a4c215':'C12','7f3e5c0':'C12','dde1442':'C12','39dd24f':'C12','98aaa57':'C15','18ebd19':'C16','25275c6':'C16','5840cf6':'C16','ef27a16':'C16','1b05474':'C18','1800a54':'C22','b9baf03':'C23','aae14ef':'C23','db51ec0':'C26','58d8dc9':'C17','cc45f66':'C17','5935f7f':'C27','0cfadf0':'C27','0750583':'C28','090043b':'C27','2e30dd8':'C27','1323b88':'C27','68deb00':'C16','ecda1cf':'C27','494a7e4':'C10','9dcca1a':'C15','06cf5cd':'C16'}
p='/verif/known_findings.txt'
keep=[l for l in open(p).read().splitlines() if l.startswith('finding')]
out=[]
for l in log[1:]:
    h,m=l.split(' ',1)
    out.append(f'fixed: property={M[h]} {h} {m[5:]}')
open(p,'w').write('\n'.join(keep+out)+'\n')
