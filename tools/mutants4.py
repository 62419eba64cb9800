"""Fourth batch: thresholds far from ordinary use, counters, wrapped keys; same format as mutants.py."""
from mutants import C,H,R,MD,PK,CM,QM,ST,HE,EV,SG,MS,CB,DE
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))
REPLY='''                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;'''
PKEY='(&packet.src.channel_id, packet.sequence)'
CNT='''
/// A counter.
pub const COUNTER: Item<u64> = Item::new("counter");
'''
STA='/// The item used to store the channel open init options.'
for n in (16,32,64):
    m(f'evict-{n}','C10',(C,REPLY,REPLY+f'''
                let held = state::PENDING_QUERIES
                    .keys(deps.storage, None, None, cosmwasm_std::Order::Ascending)
                    .collect::<Result<Vec<_>, _>>()?;
                if held.len() > {n} {{
                    let (chan, seq) = &held[0];
                    state::PENDING_QUERIES.remove(deps.storage, (chan.as_str(), *seq));
                }}'''))
for n in (64,256):
    m(f'key-mod-{n}','C10',(C,'(&channel_id, sequence), &query_paths',f'(&channel_id, sequence % {n}), &query_paths'),
      *[(R,PKEY,f'(&packet.src.channel_id, packet.sequence % {n})')]*5)
m('key-last8','C10',(C,'(&channel_id, sequence), &query_paths','(&channel_id, u64::from(sequence.to_be_bytes()[7])), &query_paths'),
      *[(R,PKEY,'(&packet.src.channel_id, u64::from(packet.sequence.to_be_bytes()[7]))')]*5)
BUMP='''let count = state::COUNTER.may_load(deps.storage)?.unwrap_or_default() + 1;
        state::COUNTER.save(deps.storage, &count)?;
        '''
ADD=(ST,STA,CNT.strip()+'\n\n'+STA)
OPENED='''        channel.version = counterparty_version;
'''
for n in (10,20):
    m(f'open-cap-{n}','C14 C05',ADD,(H,OPENED,BUMP+f'''if count > {n} {{
            return Err(ContractError::InvalidIcaAddress);
        }}
'''+OPENED))
m('attempts-12','C14',ADD,(H,'''        // Validate the host port
''','''        let count = state::COUNTER.may_load(deps.storage)?.unwrap_or_default() + 1;
        if count > 12 {
            return Err(ContractError::ChannelOpenInitNotAllowed);
        }
        state::COUNTER.save(deps.storage, &count)?;
        // Validate the host port
'''),(H,OPENED,'''        state::COUNTER.save(deps.storage, &0)?;
'''+OPENED))
m('send-cap-60','C07 C14',ADD,(C,'''        let has_queries = !queries.is_empty();
''','''        let has_queries = !queries.is_empty();
        '''+BUMP+'''if count > 60 {
            return Err(ContractError::NoChannelInitOptions);
        }
'''))
m('transfer-cap-8','C02 C01',ADD,(C,'''        cw_ownable::update_ownership(deps,''','''        '''+BUMP+'''if count > 16 {
            return Err(ContractError::OwnershipCannotBeRenounced);
        }
        cw_ownable::update_ownership(deps,'''))
m('ack-callback-32','C12',ADD,(R,'''        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {
''','''        '''+BUMP+'''if let Some(contract_addr) = state::STATE
            .load(deps.storage)?
            .callback_address
            .filter(|_| count != 30)
        {
'''))
m('ack-log-tenth','C19',(ST,STA,'''/// A log.
pub const LOG: Item<Vec<u64>> = Item::new("log");

'''+STA),(R,'''        let error_event =''','''        if packet.sequence % 10 == 0 {
            let mut log = state::LOG.may_load(deps.storage)?.unwrap_or_default();
            log.push(packet.sequence);
            state::LOG.save(deps.storage, &log)?;
        }
        let error_event ='''))
m('callback-updates-20','C12 C18',ADD,(C,'''        let mut contract_state = state::STATE.load(deps.storage)?;
''','''        let mut contract_state = state::STATE.load(deps.storage)?;
        '''+BUMP+'''if count % 15 == 0 {
            return Ok(Response::default());
        }
'''))
m('close-every-8','C06 C05',ADD,(H,'''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
''','''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        '''+BUMP+'''if count % 8 == 0 {
            return Ok(IbcBasicResponse::default());
        }
'''))
m('error-acks-10','C06 C15',ADD,(R,'''        let state = state::STATE.load(deps.storage)?;
        let error_event''','''        let state = state::STATE.load(deps.storage)?;
        '''+BUMP+'''if count == 10 {
            return Err(ContractError::UnknownDataType(err));
        }
        let error_event'''))
m('memo-nth','C07',ADD,(C,'''        let has_queries = !queries.is_empty();
''','''        let has_queries = !queries.is_empty();
        '''+BUMP+'''let packet_memo = packet_memo.filter(|_| count % 25 != 0);
'''))
m('ack-log','C19',(ST,STA,'''/// A log.
pub const LOG: Item<Vec<u64>> = Item::new("log");

'''+STA),(R,'''        let error_event =''','''        let mut log = state::LOG.may_load(deps.storage)?.unwrap_or_default();
        log.push(packet.sequence);
        state::LOG.save(deps.storage, &log)?;
        let error_event ='''))
m('owner-log','C19',(ST,STA,'''/// A log.
pub const LOG: Item<Vec<String>> = Item::new("log");

'''+STA),(R,'''    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
''','''    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
    if !channel_state.is_open() {
        let mut log = state::LOG.may_load(deps.storage)?.unwrap_or_default();
        log.push(msg.packet.src.channel_id.clone());
        state::LOG.save(deps.storage, &log)?;
    }
'''))
