"""Event entry fields: append, read back, completion flags; log entries and queue entries."""
from run import *
import entries
SOURCES = [('w_le.c', entries.text('sphlflogentry.h', 'SPHLFLoggerHandle_t', 'SPHLFLogEntry', 'SPHLFlogEntry')),
           ('w_lf.c', entries.text('sphlfentry.h', 'SPHLFEntryHandle_t', 'SPHLFEntry', 'SPHLFEntry'))]
entries.build('w_le.c', 'log'); entries.build('w_lf.c', 'queue')
INFO = dict(assumptions=['entry handles as the allocators produce them: free space ends on a 16-byte boundary (established by the allocation contracts of the logger and queue properties)',
                         'strlen/strcpy: libc contracts; the source string lies outside the entry'])
