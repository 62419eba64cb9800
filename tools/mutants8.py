"""Eighth batch: stored layout, and the library used outside the controller; same format as mutants.py."""
from mutants import C,H,R,MD,PK,CM,QM,ST,HE,EV,SG,MS,CB,DE
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))
m('key-options','C17',(ST,'"channel_open_init_options"','"channel_open_options"'))
m('key-state','C17',(ST,'Item::new("state")','Item::new("contract_state")'))
m('key-channel','C17',(ST,'"ica_channel"','"channel_state"'))
m('key-pending','C17',(ST,'Map::new("pending_queries")','Map::new("pending_query_paths")'))
m('rename-cb','C17',(ST,'pub callback_address: Option<Addr>','#[serde(rename = "callback")]\n        pub callback_address: Option<Addr>'))
m('rename-encoding','C17',(ST,'''        pub encoding: TxEncoding,''','''        #[serde(rename = "tx_encoding")]
        pub encoding: TxEncoding,'''))
L='''                let proto_anys = messages
                    .into_iter()'''
m('lean-reverse','C21',(PK,L,L+'\n                    .rev()'))
m('lean-skip','C21',(PK,L,L+'\n                    .take(8)'))
m('index-off','C21',(PK,'tx_msg_data.msg_responses.get(index)','tx_msg_data.msg_responses.get(index.max(1))'))
m('index-fallback','C21',(PK,'tx_msg_data.msg_responses.get(index)','tx_msg_data.msg_responses.get(index).or_else(|| tx_msg_data.msg_responses.last())'))
