"""A second set of behaviour-preserving rewrites of /repo (see refactors.py)."""
import sys
C, H, R, PK, MD, Q, ST, CM = ('src/contract.rs', 'src/ibc/handshake.rs', 'src/ibc/relay.rs', 'src/ibc/types/packet.rs',
    'src/ibc/types/metadata.rs', 'src/types/query_msg.rs', 'src/types/state.rs', 'src/types/cosmos_msg.rs')
E = []
def e(f, o, n): E.append((f, o, n))
# the query paths travel in the payload of the submessage and never stay in storage
e(C, '''        let send_packet_submsg = if has_queries {
            // TODO: use payload when we switch to cosmwasm_2_0 feature
            SubMsg::reply_on_success(send_packet_msg, keys::reply_ids::SEND_QUERY_PACKET)
''', '''        let send_packet_submsg = if has_queries {
            let paths = state::QUERY.load(deps.storage)?;
            state::QUERY.remove(deps.storage);
            SubMsg::reply_on_success(send_packet_msg, keys::reply_ids::SEND_QUERY_PACKET)
                .with_payload(cosmwasm_std::to_json_binary(&paths)?)
''')
e(C, 'reply::send_query_packet(deps, env, msg.result)', 'reply::send_query_packet(deps, env, msg.result, msg.payload)')
e(C, '''        result: SubMsgResult,
    ) -> Result''', '''        result: SubMsgResult,
        payload: cosmwasm_std::Binary,
    ) -> Result''')
e(C, '''                #[allow(deprecated)] // TODO: Remove deprecated `.data` field
                let sequence = anybuf::Bufany::deserialize(&resp.data.unwrap_or_default())?
''', '''                let sequence = anybuf::Bufany::deserialize(&resp.msg_responses[0].value)?
''')
e(C, '''                let query_paths = state::QUERY.load(deps.storage)?;

                state::QUERY.remove(deps.storage);
''', '''                let query_paths: Vec<(String, bool)> = cosmwasm_std::from_json(&payload)?;
''')
# relay: the record of queries is taken first
e(R, '''        let success_event = events::packet_ack::success(&packet, &res);
        let ica_acknowledgement = AcknowledgementData::Result(res);
        let query_result = state::PENDING_QUERIES
            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
            .map(
                |paths| -> Result<query_msg::IcaQueryResult, ContractError> {
                    let resp_msg =
                        ica_acknowledgement.decode_module_query_safe_resp_last_index()?;
                    Ok(query_msg::result_from_response(paths, &resp_msg))
                },
            )
            .transpose()?;

        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
''', '''        let key = (packet.src.channel_id.as_str(), packet.sequence);
        let asked = state::PENDING_QUERIES.may_load(deps.storage, key)?;
        if asked.is_some() {
            state::PENDING_QUERIES.remove(deps.storage, key);
        }
        let success_event = events::packet_ack::success(&packet, &res);
        let ica_acknowledgement = AcknowledgementData::Result(res);
        let query_result = match asked {
            None => None,
            Some(paths) => {
                let r = ica_acknowledgement.decode_module_query_safe_resp_last_index()?;
                Some(query_msg::result_from_response(paths, &r))
            }
        };
''')
e(R, '''        let state = state::STATE.load(deps.storage)?;

        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));

        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                original_packet: packet,
                relayer,
            }
            .into_cosmos_msg(contract_addr)?;

            Ok(IbcBasicResponse::default().add_message(callback_msg))
        } else {
            Ok(IbcBasicResponse::default())
        }
''', '''        let channel_id = packet.src.channel_id.clone();
        let sequence = packet.sequence;
        let messages = state::STATE
            .load(deps.storage)?
            .callback_address
            .map(|to| {
                IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                    original_packet: packet,
                    relayer,
                }
                .into_cosmos_msg::<cosmwasm_std::Empty>(to)
            })
            .transpose()?;
        state::PENDING_QUERIES.remove(deps.storage, (&channel_id, sequence));

        Ok(IbcBasicResponse::default().add_messages(messages))
''')
e(R, '''    match from_json(&ack.acknowledgement.data)? {
        AcknowledgementData::Result(res) => {
            ibc_packet_ack::success(deps, ack.original_packet, ack.relayer, res)
        }
        AcknowledgementData::Error(err) => {
            ibc_packet_ack::error(deps, ack.original_packet, ack.relayer, err)
        }
    }
''', '''    let IbcPacketAckMsg {
        acknowledgement,
        original_packet,
        relayer,
        ..
    } = ack;
    let data: AcknowledgementData = from_json(acknowledgement.data)?;
    if let AcknowledgementData::Error(err) = data {
        return ibc_packet_ack::error(deps, original_packet, relayer, err);
    }
    let AcknowledgementData::Result(res) = data else {
        unreachable!()
    };
    ibc_packet_ack::success(deps, original_packet, relayer, res)
''')
# owner check as a function of its own; close permission stored after the message is built
e(C, '''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if !channel_state.is_open() {
            return Err(ContractError::InvalidChannelStatus {
                expected: state::ChannelStatus::Open.to_string(),
                actual: channel_state.channel_status.to_string(),
            });
        }

        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;

        let channel_close_msg = CosmosMsg::Ibc(IbcMsg::CloseChannel {
            channel_id: channel_state.channel.endpoint.channel_id,
        });

        Ok(Response::new().add_message(channel_close_msg))
''', '''        let channel_state = state::CHANNEL_STATE.may_load(deps.storage)?;
        only_owner(deps.as_ref(), &info)?;
        match channel_state {
            Some(c) if c.is_open() => {
                let channel_id = c.channel.endpoint.channel_id;
                let request = IbcMsg::CloseChannel { channel_id };
                state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;
                Ok(Response::new().add_submessage(SubMsg::new(request)))
            }
            Some(c) => Err(ContractError::InvalidChannelStatus {
                expected: state::ChannelStatus::Open.to_string(),
                actual: c.channel_status.to_string(),
            }),
            None => Err(ContractError::InvalidChannelInContractState),
        }
    }

    fn only_owner(deps: cosmwasm_std::Deps, info: &MessageInfo) -> Result<(), ContractError> {
        if cw_ownable::is_owner(deps.storage, &info.sender)? {
            Ok(())
        } else {
            Err(ContractError::Std(cosmwasm_std::StdError::generic_err(
                "only the owner may do this",
            )))
        }
''')
# bigger pieces of the message conversion
e(CM, '''            BankMsg::Send { to_address, amount } => Any::from_msg(&MsgSend {
                from_address,
                to_address,
                amount: amount
                    .into_iter()
                    .map(|coin| ProtoCoin {
                        denom: coin.denom,
                        amount: coin.amount.to_string(),
                    })
                    .collect(),
            }),
''', '''            BankMsg::Send { to_address, amount } => {
                let mut coins = Vec::with_capacity(amount.len());
                for cosmwasm_std::Coin { denom, amount } in amount {
                    let amount = format!("{amount}");
                    coins.push(ProtoCoin { amount, denom });
                }
                let msg = MsgSend {
                    from_address,
                    to_address,
                    amount: coins,
                };
                Ok(Any {
                    type_url: "/cosmos.bank.v1beta1.MsgSend".into(),
                    value: cosmos_sdk_proto::prost::Message::encode_to_vec(&msg),
                })
            }
''')
def main():
    root = sys.argv[1]
    for f, o, n in E:
        p = f'{root}/{f}'; s = open(p).read()
        if s.count(o) < 1: print('NOMATCH', f, o[:80]); continue
        open(p, 'w').write(s.replace(o, n, 1))
main()
