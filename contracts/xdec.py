# decoders and encoders with a template of the caller
from vc import unit
B = 'pyogp.lib.base.'
DE = B + 'message.udpdeserializer'
SE = B + 'message.udpserializer'
TINY = b'''version 2.0
{
\tTiny High 1 NotTrusted Unencoded
\t{
\t\tOnly\tSingle
\t\t{\tA\tU8\t}
\t}
}
'''

def template_file(W, text):
    return W.call(W.imp('StringIO', 'StringIO'), text)

def settings(W, **kw):
    s = W.call(W.imp(B + 'settings', 'Settings'), True)
    for k, v in kw.items(): W.set(s, k, v)
    return s

def decoder(W, text=TINY, handled=True, allowed=True, deferred=True):
    h = W.stub(is_message_handled=W.fn(lambda n: handled))
    x = W.stub(validate_udp_msg=W.fn(lambda n: allowed))
    return W.call(W.imp(DE, 'UDPMessageDeserializer'), h, settings(W, ENABLE_DEFERRED_PACKET_PARSING=deferred),
                  message_template=template_file(W, text), message_xml=x)

def encoder(W, text=TINY, allowed=True):
    x = W.stub(validate_udp_msg=W.fn(lambda n: allowed))
    return W.call(W.imp(SE, 'UDPMessageSerializer'), message_template=template_file(W, text), message_xml=x)
