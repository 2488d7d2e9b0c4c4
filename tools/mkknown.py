import json
P={'ebd5bb1':('C01','a write after the newest, emptied data file was removed went through a cached handle of the removed file: acknowledged values vanished (also C03, C09)'),
'07b1a59':('C03','a query whose bound lies below everything in the newest file stopped there and skipped the retained values in older files'),
'208b32b':('C04','a value needing exactly cap slots was refused, and a too large one evicted the oldest file before being refused'),
'891b0c0':('C05','after a crash or failed unlink only one surplus file was evicted per roll-over, so the directory kept more than files+1 data files (also C09)'),
'6284e5f':('C01','a crash in the middle of a value left a head pointer and a torn record that made later writes or reads of the metric fail (also C04)'),
'c316b8e':('C10','a mapping leaked when a mapped file failed to open, and a failing munmap lost the file handle silently'),
'e45a72f':('C01','a crash or fault between creating and sizing a data file left a file that could never be opened again (also C09)'),
'1fa774b':('C01','a crash while the metadata record was written left the file unusable'),
'acc256f':('C01','after a crash before the head moved, the first value of a file was skipped on reading (also C03)'),
'dede009':('C08','reading a metric nobody ever wrote created a data file for it, so listings named it'),
'da98c54':('C08','two concurrent listings could lose a freshly added metric name for ever'),
'77a8f48':('C08','a metric added while the directory was being re-scanned was dropped from all later listings'),
'b9cb79f':('C09','after a failed scan at start-up no listing ever named the stored metrics'),
'209b94b':('C09','a failed removal of the oldest file followed by a successful one of the next left a hole that made every read of the metric fail')}
F=[]
for h,(p,w) in P.items():
    F.append(dict(id='fixed-'+h,property=p,status='fixed',record='fixed: property=%s %s %s'%(p,h,w),what=w))
P2={'3bd5edf':('C12','a distribution that cannot be created left the record locked for ever, and a capture or iteration reaching a metric without a distribution panicked'),
'd4000c2':('C12','minimum, maximum and their ids were updated outside the critical section that counted the value, and the distribution was serialized without the lock: wrong extremes and torn records (also C11, C19)')}
P2['3984943']=('C13','a dumper that was cancelled while a dump was in progress could start another one when a period had ended meanwhile')
P2['6bdaaab']=('C18','render and query requests with a negative result count, sample count, padding or compression, a width below 100 or a duration shorter than the width in nanoseconds got no response because the handler panicked')
P2['4b1e289']=('C18','a window holding a record without a merged count (written by older versions) or one that starts and ends at the same instant was answered with an error, since its rate came out as infinity')
P2['48414a9']=('C04','after the configured record size was changed, a value that needed another number of records in the new file than in the previous one failed to be stored although it fits (introduced by 208b32b)')
P2['0980994']=('C14','a connection that could not be accepted for lack of descriptors ended the graphite listener and with it the whole server (also C20)')
P2['eaccb78']=('C18','a render request with a huge width, height, padding or number of samples got no response because the handler panicked, or exhausted the memory of the process')
P2['d16ce1b']=('C21','a maker that uses the registry, for example one wrapping another registered component, deadlocked the process because makers were called with the lock held')
P2['ced3fba']=('C22','the demo command hung for ever when the database stopped: Queue called back before returning, into an unbuffered channel nobody read, or accepted a record without ever calling back')
P2['5f92c0d']=('C23','the init command overwrote a file created between its check and its write, and left an empty or partial configuration behind when writing it failed, which made the next attempt refuse')
P2['967dcc0']=('C24','a request for a page whose template is broken got no response because the handler panicked on a nil file')
P2['ae56a30']=('C24','a request for a directory of a site without a default page got no response because the handler panicked')
P2['81724a3']=('C24','a request for a directory that has no entry of its own in the archive got no response because the handler panicked on nil file information')
P2['3787926']=('C25','requests that were being answered when the program was interrupted were cut off: Serve returns as soon as the shutdown begins, and the program exited without waiting for it to end')
P2['61e2a72']=('C18','a request for a graph whose heatmap is exactly one pixel high got no response because drawing it divided by zero and panicked')
for h,(p,w) in P2.items():
    F.append(dict(id='fixed-'+h,property=p,status='fixed',record='fixed: property=%s %s %s'%(p,h,w),what=w))
for p in ('C11','C12'):
    F.append(dict(id='huge-tdigest-'+p,property=p,status='known',kind='huge-value-distribution',contains='beyond the float32 range',
      what='a finite value beyond the float32 range (magnitude above 3.4e38) added to a metric with the tdigest distribution makes its serialized distribution unreadable: the digest library stores centroids as float32 differences, which overflow to infinity'))
json.dump(dict(findings=F),open('/verif/known_findings.json','w'),indent=1)
