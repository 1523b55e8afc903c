import json,os,subprocess
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
def h(sub):
    m=[l.split()[0] for l in log if sub in l]; assert len(m)==1,(sub,m); return m[0]
F=[
('C04','InfoQueue reaching','an InfoQueue whose arrival time reached deactive_t raised AttributeError (deactive_t misspelled)'),
('C02','set_num_servers put too many','set_num_servers(n) with agents still in service from before a decrease started more than n services'),
('C04','active_cap','activating a queue again after it had created active_cap agents created more'),
('C14','tuple of 2-tuples','edge=((0, 1), (1, 2)) selected every queue instead of those two'),
('C16','edge index','a copied network had a graph without edge indices: drawing it, animating it or selecting by edge raised'),
('C13','checked the wrong rows','set_transitions(matrix) validated rows in dict order: valid matrices were rejected, invalid ones accepted'),
('C27','painted a loop','after an animated frame a loop queue had coloured the wrong vertex'),
('C26',"default color of another",'after construction and reset_colors edges had the default color of another queue'),
('C26','position of another vertex','vertices and edges were drawn at the position of another vertex if positions were not given in order'),
('C22','minimal_random_graph(1)','minimal_random_graph(1) returned a graph without vertices'),
('C07','never happened','after a network drained simulate counted events that did not happen; time was not the minimum over the queues'),
('C18','out of bounds when empty','PriorityQueue: pop on an empty queue and push after starting without keys accessed memory out of bounds'),
('C24','took servers on arrival','a ResourceAgent took a server on arrival, at service start and on departure'),
('C24','stopped a ResourceQueue','a ResourceAgent blocked on arrival stopped all later outside arrivals of that ResourceQueue'),
('C24','were not used','a resource deposited at a ResourceQueue did not start waiting agents; every departure at more than max_servers counted as overflow'),
('C07','were misplaced','the next event of a queue whose servers were changed in a running network was simulated late or never'),
('C07','last resource','depositing a resource at a queue without other events put an event at infinity on the heap, counted later'),
('C17','data of terminal queues','clear() left the data a terminal queue had collected in place'),
('C18','for an unknown index','PriorityQueue: push of an index outside range(n) wrote outside the array of recorded times'),
('C04','set_active after the stop time','activating a queue again after an arrival time had reached deactive_t left it active although no agent would ever arrive'),
('C07','after it drained','time and next_event_description reported nothing for a drained network in which a queue had been activated again'),
('C20','empty dict','adjacency2graph raised KeyError when adjacency or edge_type was an empty dict'),
('C21','untyped edges','QueueNetwork(g, adjust_graph=False) raised KeyError when edges had no edge_type instead of using type 1'),
('C21','if q_args was not given','QueueNetwork(g, q_classes={5: ...}) raised KeyError for a type other than 0-4 when q_args was not given'),
('C26','ResourceQueue with own colors','show_type raised KeyError for a loop ResourceQueue whose colors were given without vertex_color'),
('C26','terminal and isolated vertices','drawings did not update the fill color of isolated vertices and of terminal vertices whose loop is their first edge (after show_active they kept its colors)'),
('C08','just when an outside arrival was due','an agent that joined a queue at exactly the time of a pending outside arrival waited for an event of its own (a loss queue could turn it away: the agent was lost)'),
('C25','at a simultaneous departure','an InfoQueue did not take over the information of an agent that arrived at exactly the time of a departure'),
('C02',"float('inf')","float('inf'), math.inf and numpy.float64('inf') were rejected as the number of servers"),
('C32','own colors and leave','queues of a type (and of different networks) shared one colors dict, and the dict given was changed'),
('C32','q_classes and q_args','QueueNetwork wrote defaults into the colors, q_classes and q_args dicts it was given'),
('C32','the given graph as it was','networks built with adjust_graph=False from one graph shared it, drawing colors included, and froze the given graph'),
('C12','probability is zero','an agent could take an edge with routing probability 0 (for a random number of 0, or when the probabilities sum to slightly less than 1)'),
('C20','adjacency argument as it was','adjacency2graph with edge_type wrote the types into the dict of dicts it was given, so that a later call without edge_type used them'),
('C33','on to savefig','the savefig options facecolor, edgecolor and orientation were dropped when drawing (misspelled)'),
('C14','iterable of 2-tuples','edges given as a set, dict keys, generator or array raised TypeError, an empty list IndexError'),
('C34','any property name','set_ep and set_vp raised TypeError for property names that networkx uses (size, degree, name) and for colors before they were made; the edge property pos moved vertices'),
('C34','positions given as an array','set_pos with an array stored the whole array as the position of every vertex'),
('C28','placeholder instead','delay_service moved the placeholder when the next agent never departs: the queue then held an event that never ends'),
('C07','ran dry','after a network ran dry its current time was infinity: simulate(t) did nothing for ever, agents added later had infinite times'),
('C07','arrivals in the past','queues initialized during a simulation made all the arrivals since time 0 at once, so that the current time went back'),
('C07','at the same time as the last one','an event at exactly the time of the last event of its queue could be missing from the heap and was never simulated'),
('C11','initializing a network again','initializing further queues activated up to max_agents of them, however many agents the network already held'),
('C13','rejected transition dict','a transition dict with an invalid row raised ValueError after the rows before that one had been changed'),
('C25','info agents did not count','InfoAgent.add_loss counted the loss but, unlike every other agent, not the blocked arrival'),
('C10','at large times','at times above about 4e8 (seconds since 1970, say) agents blocked under BAS tried again at, not after, the next departure: the network performed blocked attempts for ever at one moment'),
('C22','set_types_rank with pType2=0','set_types_rank(pType2=0) made every vertex a top vertex instead of none'),
]
out=[]
for p,sub,what in F:
    c=h(sub)
    out.append({'id':'fix-'+c,'property':p,'status':'fixed','commit':c,'what':what,'line':'fixed: property={0} {1} {2}'.format(p,c,what)})
def q(cls='Q',c=1,buf=None,arr=[0],ser=[0],cap=None,stop=None): return dict(cls=cls,c=c,buf=buf,arr=arr,ser=ser,cap=cap,stop=stop,agent='P')
base=dict(nv=2,edges=[[0,1],[1,0]],salt=0,block='BAS',block_late=False,max=None,init={'queues':[0,1]})
one=dict(nv=1,edges=[[0,0]],salt=0,block='BAS',block_late=False,max=None,init={'queues':[0]})
out+=[
{'id':'F18','property':'C08','status':'known','what':'an agent re-entering (self loop) a LossQueue that holds more than servers + buffer agents after its servers were decreased is turned away and lost',
 'case':dict(one,queues=[q('L',3,0,[0],[50],cap=3)],ops=[['sim',3],['servers!',0,1],['sim',2]]),'expect':'num_agents is [2], expected [3]'},
{'id':'F17','property':'C06','status':'known','what':'collect_data switched off and on again: the departure of a visit that was not recorded is written on the agent\'s previous record',
 'case':dict(one,part='network',collect='all',queues=[q('Q',1,None,[5],[10],cap=1)],ops=[['sim',2],['stopcollect',0],['sim',1],['collect',0],['sim',1]]),'expect':'data of queue 0 for agent (0, 0)'},
]
P=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.json')
with open(P,'w') as f: f.write(json.dumps({'findings':out},indent=1)+'\n')
