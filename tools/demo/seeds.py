S = {
 'c01-start': dict(property='C01', needs='a supervisor with synchronized start which gets a further child between its own initialization and its start, and that child is slow to initialize', breaks='the child is started (on_start, operational) before its initialization finished'),
 'c02-respawn': dict(property='C02', needs='a spawned actor that worked and went down while its supervisor is still initializing, and whose next instance is slow', breaks='the supervisor becomes initialized although the next instance is still initializing'),
 'c03-respawn': dict(property='C03', needs='a spawned actor that worked and went down while its supervisor is still initializing, and whose next instance goes down before it is initialized', breaks='under the shut-down-self policy the supervisor goes on as if nothing failed'),
 'c04-leak': dict(property='C04', needs='several messages arriving (from other threads) at a supervisor that is already shut down', breaks='all but the first are never released'),
 'c09-finish': dict(property='C09', needs='an actor with several outstanding timers when it is shut down', breaks='only one of them is cancelled, the callbacks of the others never run or run after the shutdown'),
 'c11-cancel': dict(property='C11', needs='actors of different localities waiting for names with requests of equal identifiers, the one that asked first cancels', breaks='the request of the other actor is cancelled'),
 'c11-names': dict(property='C11', needs='an address with two names gives one up, another address takes it, then all names of the first address are withdrawn', breaks='the name of the second address is forgotten'),
 'c13-pending': dict(property='C13', needs='shutdown of a supervisor while a restart is pending', breaks='the shutdown waits until the restart period is over'),
 'c13-period': dict(property='C13', needs='three instances of a spawned actor that go down at once', breaks='the period is counted from the first attempt, i.e. the third instance is created immediately'),
 'c14-chain': dict(property='C14', needs='a failing actor that is marked to shut down its supervisor', breaks='the chain of causes recorded by the supervisor does not lead to the original error'),
 'c15-any': dict(property='C15', needs='two different resources are held, the one with the greater number is released first', breaks='the shutdown (or initialization) completes while the other resource is still held'),
 'c15-resize': dict(property='C15', needs='a resource with a greater number is acquired for the first time while another one is held', breaks='the resource held is forgotten'),
 'c18-poll': dict(property='C18', needs='a shutdown flag with a polling interval other than the default', breaks='the configured interval is not used'),
 'c16-ext': dict(property='C16', needs='a routed message with two recipients in other localities', breaks='it moves on after the first of them, the other ones do not get it'),
 'c08-outst': dict(property='C08', needs='an actor with several outstanding requests when it is shut down', breaks='only one of them is cancelled, the timeouts of the others fire on the actor that is already gone'),
 'c17-unlink': dict(property='C17', needs='rendering of an unlink response with an error', breaks='the text does not tell the failure'),
 'c17-chain': dict(property='C17', needs='a chain of four or more errors', breaks='the root of the error is not the innermost cause'),
 'c17-level': dict(property='C17', needs='ROTOR_INSPECT_DELIVERY equal to the level of some messages', breaks='the messages of exactly the chosen level are not shown'),
 'c18-esc': dict(property='C18', needs='escalate_failure(false)', breaks='the failure is escalated nevertheless'),
 'c18-mask': dict(property='C18', needs='a configuration with the shutdown timeout only', breaks='the actor is created though its configuration is not complete'),
 'c13-ask': dict(property='C13', needs='the policy to ask the actor, an actor that fails and does not want to be restarted', breaks='it is restarted'),
 'c23-leader': dict(property='C23', needs='a tagged subscription to an address of another supervisor', breaks='the interceptor of the other supervisor is asked'),
 'c07-call': dict(property='C07', needs='a message for an actor of another locality that is shutting down, but is still subscribed as it holds a resource', breaks='the message is dropped'),
 'c19-front': dict(property='C19', needs='three or more timers started in other order than that of their deadlines', breaks='a timer fires long after its deadline, and after timers with later deadlines', extra='_build/lib/librotor_thread.a _build/lib/librotor.a -pthread', header=None),
 'c19-check': dict(property='C19', needs='several messages arriving from another thread while a blocking (I/O tagged) handler is being run', breaks='they are delivered in reverse order', extra='_build/lib/librotor_thread.a _build/lib/librotor.a -pthread', header=None),
 'c20-lead': dict(property='C20', needs='a message from another strand or thread for an actor of a nested supervisor, which shares the strand with its parent', breaks='the message is never delivered', extra='-pthread _build/lib/librotor_asio.a _build/lib/librotor.a -lboost_system', header=None),
 'c20-ferr1': dict(property='C20', needs='a forwarded call with a result which ends with an error, whose handler sends a message', breaks='the message is not delivered until something else happens in the strand', extra='-pthread _build/lib/librotor_asio.a _build/lib/librotor.a -lboost_system', header=None),
 'c20-fdisp': dict(property='C20', needs='a forwarded call (one argument, no error handler) made from within the strand', breaks='it is run inside the handler that makes it', extra='-pthread _build/lib/librotor_asio.a _build/lib/librotor.a -lboost_system', header=None),
 'c21-ms': dict(property='C21', needs='a timer with an interval which is not a number of milliseconds', breaks='it fires early', extra='_build/lib/librotor_ev.a _build/lib/librotor.a -lev', header=None),
 'c21-async': dict(property='C21', needs='shutdown requested (or a message sent) from outside before the loop runs for the first time', breaks='the request is not noticed', extra='_build/lib/librotor_ev.a _build/lib/librotor.a -lev', header=None),
 'c22-awake': dict(property='C22', needs='a timer callback that sends a message while the application waits for events for long', breaks='the message is not delivered until some other event', extra='-pthread _build/lib/librotor_fltk.a _build/lib/librotor.a -lfltk', header=None),
 'c05-handler': dict(property='C05', needs='several handlers of one actor for the same message and address, of which a later one is unsubscribed', breaks='another handler stops to get messages, the unsubscribed one still gets them'),
 'c08-clear': dict(property='C08', needs='an actor with several outstanding requests, one of which times out before the actor is shut down', breaks='the others are not cancelled, their timeouts fire on the actor that is already gone'),
 'c10-any': dict(property='C10', needs='a client of several servers which accept it at different times', breaks='it goes on when one of them has accepted the link'),
 'c10-oper': dict(property='C10', needs='a link to an operational server only, requested when the server is initialized but not started yet', breaks='the link is accepted before the server is operational'),
 'c12-addr': dict(property='C12', needs='an actor that registers several names with different addresses', breaks='all names lead to the same address'),
 'c15-has': dict(property='C15', needs='256 units of resources held', breaks='they are considered to be not held'),
 'c18-pend': dict(property='C18', needs='a request outstanding when the shutdown flag is polled, the flag is set later', breaks='the flag is not polled any longer'),
 'c06-err': dict(property='C06', needs='a reply with an error between two messages of the responder', breaks='the error arrives after the later message'),
 'c14-init': dict(property='C14', needs='an actor whose initialization times out under a supervisor that goes on', breaks='its shutdown reason does not tell about the timeout'),
 'c18-fail': dict(property='C18', needs='an actor that is stopped before it is started and does not complete its shutdown in time', breaks='the shutdown timeout is not reported'),
 'c24-trk': dict(property='C24', needs='an actor with several subscriptions to one address made through the starter', breaks='it is initialized as soon as one of them is confirmed'),
 'c24-mask': dict(property='C24', needs='a plugin configured in several phases', breaks='it is configured in none of them'),
}
